SPECIFICATION MCSpec
CONSTANTS MaxQ = 6
          MaxP = 2
          Vals = 0
CONSTRAINT Short
INVARIANT Emit
