SPECIFICATION TSpec
CONSTANT SunMag <- SunMagOf
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
