SPECIFICATION TSpec
CONSTANTS Names = {}
          Triples = {}
          Kinds = {}
          Hashes = {}
          Depth = 0
CHECK_DEADLOCK FALSE
