SPECIFICATION Spec
CONSTANT N = 3
INVARIANT UnitaryLaw DaggerLaw Dagger2Law FallbackLaw FlattenLaw ExactLaw DetLaw CuLaw
CHECK_DEADLOCK FALSE
