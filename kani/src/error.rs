//! Stand-in for the errors: what they say is not decided here.
pub struct Parse;
pub type ParseResult<T> = Result<T, Parse>;
impl Parse {
    pub fn new<T>(_: T) -> Self { Parse }
    pub fn with_location<T>(_: T, _: (usize, &str)) -> Self { Parse }
    pub fn wrap<T>(self, _: T) -> Self { Parse }
    pub fn wrap_other<S, T>(_: S, _: T) -> Self { Parse }
}
