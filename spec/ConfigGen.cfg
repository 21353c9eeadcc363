SPECIFICATION GSpec
CONSTANTS Depth = 14
          Settings <- S
