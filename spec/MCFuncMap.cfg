SPECIFICATION Spec
CONSTANT Defs <- MCDefs
INVARIANTS ExactlyOnce OnlyLeaves AllCalled Shape InOrder Gapless FirstError NoErrUnlessTry Conserve NoGarbage Keyed Ident Compose NotStuck
CHECK_DEADLOCK FALSE
