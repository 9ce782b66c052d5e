SPECIFICATION MCSpec
CONSTANTS MaxQ = 2
          MaxP = 1
          Vals = 2
VIEW View
CONSTRAINT Bounded
INVARIANTS AtMostOneSender QueueArity ForeignNeverAttached Fifo
PROPERTY NotifyOnlyAttached
