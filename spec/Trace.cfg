CONSTANT BigEndian <- BE
INIT Init
NEXT Next
VIEW Place
CHECK_DEADLOCK FALSE
