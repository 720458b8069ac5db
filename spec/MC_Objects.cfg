SPECIFICATION MCSpec
CONSTANTS Obj <- MCObj
          Attr <- MCAttr
          Value <- MCValue
          Default = 1
          Junk = 0
          Policies <- MCPol
INVARIANT Sound
CONSTRAINT Explore
POSTCONDITION Done
CHECK_DEADLOCK FALSE
