SPECIFICATION Spec
CONSTANTS Faulty = FALSE
          Steps = 6
INVARIANTS NothingLeft Sound Complete Emit
CHECK_DEADLOCK FALSE
