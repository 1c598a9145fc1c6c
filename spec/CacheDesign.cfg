SPECIFICATION Spec
CONSTANTS NC = 2 NB = 2 MaxLen = 2 MaxN = 2 Kinds = {"g","m","e"} Valid = "gates"
INVARIANT ResultOK CacheOK
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
