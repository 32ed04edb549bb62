SPECIFICATION Spec
INVARIANT InverseMaps OnlyItems MaskLaws
CHECK_DEADLOCK FALSE
