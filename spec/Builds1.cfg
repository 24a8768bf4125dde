SPECIFICATION BSpec
CONSTANTS Names = {"my-app", "my_app", "my-app-x"}
          Triples = {"", "t"}
          Kinds = {"bin", "example"}
          Hashes = {"0", "1"}
          Depth = 1
INVARIANT Fresh
CHECK_DEADLOCK FALSE
