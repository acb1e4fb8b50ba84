SPECIFICATION Spec
INVARIANTS VectorOps ScalarOps
CHECK_DEADLOCK FALSE
