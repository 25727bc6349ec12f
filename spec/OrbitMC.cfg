CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Steps = 4
INVARIANTS Shape Distance Areas VisViva Ellipse Latitude Perigee Argument Stretch
