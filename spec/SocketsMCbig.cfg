SPECIFICATION Spec
CONSTANTS NCon = 2
MaxSent = 2
INVARIANTS Prefixed Whole OneEach OnceTaken Waiting
