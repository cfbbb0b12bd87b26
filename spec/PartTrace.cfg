SPECIFICATION Spec
CONSTANT Compared = "values"
