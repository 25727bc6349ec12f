CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Steps = 6
INVARIANTS Shape Distance Areas VisViva Ellipse Latitude Perigee Argument Stretch
