SPECIFICATION Spec
CONSTANTS MaxHeld = 3
          Settings <- S
PROPERTIES Independent LoadsAdd ErrorsGiveNothing Fresh
