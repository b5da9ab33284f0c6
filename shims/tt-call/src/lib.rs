#[macro_export]
macro_rules! tt_call {
    (macro = [{ $m:ident }] ~~> $cb:ident) => { $m! { ($cb) } };
}
#[macro_export]
macro_rules! tt_return {
    (($cb:ident) $($rest:tt)*) => { $cb! { $($rest)* } };
}
