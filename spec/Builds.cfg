SPECIFICATION BSpec
CONSTANTS Names = {"my-app", "my_app", "my-app-x"}
          Triples = {"", "t"}
          Kinds = {"bin", "example"}
          Hashes = {"0", "1"}
          Depth = 2
INVARIANT Fresh
CHECK_DEADLOCK FALSE
