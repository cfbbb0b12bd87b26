SPECIFICATION Spec
CONSTANT Compared = "all"
