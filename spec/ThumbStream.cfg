SPECIFICATION Spec
CONSTANT N <- EnvN
CONSTANT V7 <- EnvV7
INVARIANTS InStep Sound Complete
CHECK_DEADLOCK FALSE
