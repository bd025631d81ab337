// every arity of tuples and arrays, several component patterns
pub fn all_types(c: &mut Ck) {
    one::<()>(c, "()"); if c.bad() { return }
    one::<bool>(c, "bool"); if c.bad() { return }
    one::<Option<()>>(c, "Option<()>"); if c.bad() { return }
    one::<Option<bool>>(c, "Option<bool>"); if c.bad() { return }
    one::<Option<Option<Option<bool>>>>(c, "Option<Option<Option<bool>>>"); if c.bad() { return }
    one::<Option<N<5>>>(c, "Option<N<5>>"); if c.bad() { return }
    one::<Result<(),()>>(c, "Result<(),()>"); if c.bad() { return }
    one::<Result<bool,N<3>>>(c, "Result<bool,N<3>>"); if c.bad() { return }
    one::<Result<N<3>,bool>>(c, "Result<N<3>,bool>"); if c.bad() { return }
    one::<Result<N<1>,N<1>>>(c, "Result<N<1>,N<1>>"); if c.bad() { return }
    one::<Option<Result<bool,N<4>>>>(c, "Option<Result<bool,N<4>>>"); if c.bad() { return }
    one::<Result<Option<N<3>>,Result<bool,()>>>(c, "Result<Option<N<3>>,Result<bool,()>>"); if c.bad() { return }
    one::<(N<3>,N<5>)>(c, "(N<3>,N<5>)"); if c.bad() { return }
    one::<(N<5>,N<3>)>(c, "(N<5>,N<3>)"); if c.bad() { return }
    one::<(N<1>,N<7>)>(c, "(N<1>,N<7>)"); if c.bad() { return }
    one::<(N<7>,N<1>)>(c, "(N<7>,N<1>)"); if c.bad() { return }
    one::<((bool,N<3>),N<5>)>(c, "((bool,N<3>),N<5>)"); if c.bad() { return }
    one::<(Option<N<3>>,Result<bool,N<3>>)>(c, "(Option<N<3>>,Result<bool,N<3>>)"); if c.bad() { return }
    one::<N<1>>(c, "N<1>"); if c.bad() { return }
    one::<N<256>>(c, "N<256>"); if c.bad() { return }
    one::<N<65536>>(c, "N<65536>"); if c.bad() { return }
    one::<Option<[bool;3]>>(c, "Option<[bool;3]>"); if c.bad() { return }
    one::<([N<3>;2],Option<bool>,())>(c, "([N<3>;2],Option<bool>,())"); if c.bad() { return }
    one::<[(bool,N<3>);3]>(c, "[(bool,N<3>);3]"); if c.bad() { return }
    one::<[Option<N<3>>;4]>(c, "[Option<N<3>>;4]"); if c.bad() { return }
    one::<[[N<3>;2];3]>(c, "[[N<3>;2];3]"); if c.bad() { return }
    one::<(((),bool),((N<3>,),(bool,())))>(c, "(((),bool),((N<3>,),(bool,())))"); if c.bad() { return }
    one::<N<18446744073709551615>>(c, "N<18446744073709551615>"); if c.bad() { return }
    one::<Option<N<18446744073709551614>>>(c, "Option<N<18446744073709551614>>"); if c.bad() { return }
    one::<Result<N<9223372036854775808>,N<9223372036854775807>>>(c, "Result<N<9223372036854775808>,N<9223372036854775807>>"); if c.bad() { return }
    one::<Result<N<1>,N<18446744073709551614>>>(c, "Result<N<1>,N<18446744073709551614>>"); if c.bad() { return }
    one::<Result<N<18446744073709551614>,N<1>>>(c, "Result<N<18446744073709551614>,N<1>>"); if c.bad() { return }
    one::<(N<4294967296>,N<4294967295>)>(c, "(N<4294967296>,N<4294967295>)"); if c.bad() { return }
    one::<(N<4294967295>,N<4294967297>)>(c, "(N<4294967295>,N<4294967297>)"); if c.bad() { return }
    one::<(N<18446744073709551615>,N<1>)>(c, "(N<18446744073709551615>,N<1>)"); if c.bad() { return }
    one::<(N<1>,N<18446744073709551615>)>(c, "(N<1>,N<18446744073709551615>)"); if c.bad() { return }
    one::<(N<3>,N<6148914691236517205>)>(c, "(N<3>,N<6148914691236517205>)"); if c.bad() { return }
    one::<(N<6148914691236517205>,N<3>)>(c, "(N<6148914691236517205>,N<3>)"); if c.bad() { return }
    one::<[N<65535>;4]>(c, "[N<65535>;4]"); if c.bad() { return }
    one::<[N<4294967295>;2]>(c, "[N<4294967295>;2]"); if c.bad() { return }
    one::<(N<65535>,N<65536>,N<65535>,N<65535>)>(c, "(N<65535>,N<65536>,N<65535>,N<65535>)"); if c.bad() { return }
    one::<(N<2>,N<4294967295>,N<2147483647>)>(c, "(N<2>,N<4294967295>,N<2147483647>)"); if c.bad() { return }
    one::<Option<Option<(N<3>,N<1000000007>)>>>(c, "Option<Option<(N<3>,N<1000000007>)>>"); if c.bad() { return }
    one::<(bool,)>(c, "(bool,)"); if c.bad() { return }
    one::<(bool,)>(c, "(bool,)"); if c.bad() { return }
    one::<(N<3>,)>(c, "(N<3>,)"); if c.bad() { return }
    one::<((),)>(c, "((),)"); if c.bad() { return }
    one::<((),)>(c, "((),)"); if c.bad() { return }
    one::<(bool,bool,)>(c, "(bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,)>(c, "(bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),)>(c, "(N<3>,(),)"); if c.bad() { return }
    one::<((),N<4>,)>(c, "((),N<4>,)"); if c.bad() { return }
    one::<((),(),)>(c, "((),(),)"); if c.bad() { return }
    one::<(bool,bool,bool,)>(c, "(bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),)>(c, "(bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,)>(c, "(N<3>,(),bool,)"); if c.bad() { return }
    one::<((),N<4>,Option<()>,)>(c, "((),N<4>,Option<()>,)"); if c.bad() { return }
    one::<((),(),(),)>(c, "((),(),(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<((),N<4>,Option<()>,(),)>(c, "((),N<4>,Option<()>,(),)"); if c.bad() { return }
    one::<((),(),(),N<5>,)>(c, "((),(),(),N<5>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<((),(),(),N<5>,bool,)>(c, "((),(),(),N<5>,bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<((),(),(),N<5>,bool,(),)>(c, "((),(),(),N<5>,bool,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>(c, "(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"); if c.bad() { return }
    one::<(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)>(c, "(bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,)"); if c.bad() { return }
    one::<(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)>(c, "(N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),bool,N<3>,(),)"); if c.bad() { return }
    one::<[bool;0]>(c, "[bool;0]"); if c.bad() { return }
    one::<[N<3>;0]>(c, "[N<3>;0]"); if c.bad() { return }
    one::<[();0]>(c, "[();0]"); if c.bad() { return }
    one::<[Option<()>;0]>(c, "[Option<()>;0]"); if c.bad() { return }
    one::<[N<4>;0]>(c, "[N<4>;0]"); if c.bad() { return }
    one::<[bool;1]>(c, "[bool;1]"); if c.bad() { return }
    one::<[N<3>;1]>(c, "[N<3>;1]"); if c.bad() { return }
    one::<[();1]>(c, "[();1]"); if c.bad() { return }
    one::<[Option<()>;1]>(c, "[Option<()>;1]"); if c.bad() { return }
    one::<[N<4>;1]>(c, "[N<4>;1]"); if c.bad() { return }
    one::<[bool;2]>(c, "[bool;2]"); if c.bad() { return }
    one::<[N<3>;2]>(c, "[N<3>;2]"); if c.bad() { return }
    one::<[();2]>(c, "[();2]"); if c.bad() { return }
    one::<[Option<()>;2]>(c, "[Option<()>;2]"); if c.bad() { return }
    one::<[N<4>;2]>(c, "[N<4>;2]"); if c.bad() { return }
    one::<[bool;3]>(c, "[bool;3]"); if c.bad() { return }
    one::<[N<3>;3]>(c, "[N<3>;3]"); if c.bad() { return }
    one::<[();3]>(c, "[();3]"); if c.bad() { return }
    one::<[Option<()>;3]>(c, "[Option<()>;3]"); if c.bad() { return }
    one::<[N<4>;3]>(c, "[N<4>;3]"); if c.bad() { return }
    one::<[bool;4]>(c, "[bool;4]"); if c.bad() { return }
    one::<[N<3>;4]>(c, "[N<3>;4]"); if c.bad() { return }
    one::<[bool;5]>(c, "[bool;5]"); if c.bad() { return }
    one::<[N<3>;5]>(c, "[N<3>;5]"); if c.bad() { return }
    one::<[bool;6]>(c, "[bool;6]"); if c.bad() { return }
    one::<[N<3>;6]>(c, "[N<3>;6]"); if c.bad() { return }
    one::<[bool;7]>(c, "[bool;7]"); if c.bad() { return }
    one::<[N<3>;7]>(c, "[N<3>;7]"); if c.bad() { return }
    one::<[bool;8]>(c, "[bool;8]"); if c.bad() { return }
    one::<[N<3>;8]>(c, "[N<3>;8]"); if c.bad() { return }
    one::<[bool;9]>(c, "[bool;9]"); if c.bad() { return }
    one::<[N<3>;9]>(c, "[N<3>;9]"); if c.bad() { return }
    one::<[bool;10]>(c, "[bool;10]"); if c.bad() { return }
    one::<[N<3>;10]>(c, "[N<3>;10]"); if c.bad() { return }
    one::<[bool;11]>(c, "[bool;11]"); if c.bad() { return }
    one::<[N<3>;11]>(c, "[N<3>;11]"); if c.bad() { return }
    one::<[bool;12]>(c, "[bool;12]"); if c.bad() { return }
    one::<[N<3>;12]>(c, "[N<3>;12]"); if c.bad() { return }
    one::<[bool;13]>(c, "[bool;13]"); if c.bad() { return }
    one::<[N<3>;13]>(c, "[N<3>;13]"); if c.bad() { return }
    one::<[bool;14]>(c, "[bool;14]"); if c.bad() { return }
    one::<[N<3>;14]>(c, "[N<3>;14]"); if c.bad() { return }
    one::<[bool;15]>(c, "[bool;15]"); if c.bad() { return }
    one::<[N<3>;15]>(c, "[N<3>;15]"); if c.bad() { return }
    one::<[bool;16]>(c, "[bool;16]"); if c.bad() { return }
    one::<[N<3>;16]>(c, "[N<3>;16]"); if c.bad() { return }
    one::<[bool;17]>(c, "[bool;17]"); if c.bad() { return }
    one::<[N<3>;17]>(c, "[N<3>;17]"); if c.bad() { return }
    one::<[bool;18]>(c, "[bool;18]"); if c.bad() { return }
    one::<[N<3>;18]>(c, "[N<3>;18]"); if c.bad() { return }
    one::<[bool;19]>(c, "[bool;19]"); if c.bad() { return }
    one::<[N<3>;19]>(c, "[N<3>;19]"); if c.bad() { return }
    one::<[bool;20]>(c, "[bool;20]"); if c.bad() { return }
    one::<[N<3>;20]>(c, "[N<3>;20]"); if c.bad() { return }
    one::<[bool;21]>(c, "[bool;21]"); if c.bad() { return }
    one::<[N<3>;21]>(c, "[N<3>;21]"); if c.bad() { return }
    one::<[bool;22]>(c, "[bool;22]"); if c.bad() { return }
    one::<[N<3>;22]>(c, "[N<3>;22]"); if c.bad() { return }
    one::<[bool;23]>(c, "[bool;23]"); if c.bad() { return }
    one::<[N<3>;23]>(c, "[N<3>;23]"); if c.bad() { return }
    one::<[bool;24]>(c, "[bool;24]"); if c.bad() { return }
    one::<[N<3>;24]>(c, "[N<3>;24]"); if c.bad() { return }
    one::<[bool;25]>(c, "[bool;25]"); if c.bad() { return }
    one::<[N<3>;25]>(c, "[N<3>;25]"); if c.bad() { return }
    one::<[bool;26]>(c, "[bool;26]"); if c.bad() { return }
    one::<[N<3>;26]>(c, "[N<3>;26]"); if c.bad() { return }
    one::<[bool;27]>(c, "[bool;27]"); if c.bad() { return }
    one::<[N<3>;27]>(c, "[N<3>;27]"); if c.bad() { return }
    one::<[bool;28]>(c, "[bool;28]"); if c.bad() { return }
    one::<[N<3>;28]>(c, "[N<3>;28]"); if c.bad() { return }
    one::<[bool;29]>(c, "[bool;29]"); if c.bad() { return }
    one::<[N<3>;29]>(c, "[N<3>;29]"); if c.bad() { return }
    one::<[bool;30]>(c, "[bool;30]"); if c.bad() { return }
    one::<[N<3>;30]>(c, "[N<3>;30]"); if c.bad() { return }
    one::<[bool;31]>(c, "[bool;31]"); if c.bad() { return }
    one::<[N<3>;31]>(c, "[N<3>;31]"); if c.bad() { return }
    one::<[bool;32]>(c, "[bool;32]"); if c.bad() { return }
    one::<[N<3>;32]>(c, "[N<3>;32]"); if c.bad() { return }
}
