pub type IoResult<T> = Result<T, IoError>;
#[derive(Debug)]
pub struct IoError;
