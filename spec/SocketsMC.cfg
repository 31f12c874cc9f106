SPECIFICATION Spec
CONSTANTS NCon = 1
MaxSent = 3
INVARIANTS Prefixed Whole OneEach OnceTaken Waiting
