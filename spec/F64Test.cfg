INIT TInit
NEXT TNext
CONSTANT SunMag <- SunMagT
CHECK_DEADLOCK FALSE
