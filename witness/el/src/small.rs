pub fn small_types(c: &mut Ck) {
    p8::<()>(c, "()"); if c.bad() { return }
    p8::<bool>(c, "bool"); if c.bad() { return }
    p8::<Option<bool>>(c, "Option<bool>"); if c.bad() { return }
    p8::<Option<()>>(c, "Option<()>"); if c.bad() { return }
    p8::<Result<bool,N<3>>>(c, "Result<bool,N<3>>"); if c.bad() { return }
    p8::<(bool,N<3>)>(c, "(bool,N<3>)"); if c.bad() { return }
    p8::<(N<3>,N<5>)>(c, "(N<3>,N<5>)"); if c.bad() { return }
    p8::<[bool;3]>(c, "[bool;3]"); if c.bad() { return }
    p8::<[bool;8]>(c, "[bool;8]"); if c.bad() { return }
    p8::<N<1>>(c, "N<1>"); if c.bad() { return }
    p8::<N<2>>(c, "N<2>"); if c.bad() { return }
    p8::<N<127>>(c, "N<127>"); if c.bad() { return }
    p8::<N<128>>(c, "N<128>"); if c.bad() { return }
    p8::<N<129>>(c, "N<129>"); if c.bad() { return }
    p8::<N<255>>(c, "N<255>"); if c.bad() { return }
    p8::<N<256>>(c, "N<256>"); if c.bad() { return }
    p8::<Option<N<255>>>(c, "Option<N<255>>"); if c.bad() { return }
    p8::<(N<16>,N<16>)>(c, "(N<16>,N<16>)"); if c.bad() { return }
    p8::<Result<N<128>,N<128>>>(c, "Result<N<128>,N<128>>"); if c.bad() { return }
    p8::<[N<4>;4]>(c, "[N<4>;4]"); if c.bad() { return }
    p8::<[N<6>;3]>(c, "[N<6>;3]"); if c.bad() { return }
    p8::<Option<[N<3>;5]>>(c, "Option<[N<3>;5]>"); if c.bad() { return }
    p16::<()>(c, "()"); if c.bad() { return }
    p16::<bool>(c, "bool"); if c.bad() { return }
    p16::<Option<bool>>(c, "Option<bool>"); if c.bad() { return }
    p16::<Option<()>>(c, "Option<()>"); if c.bad() { return }
    p16::<Result<bool,N<3>>>(c, "Result<bool,N<3>>"); if c.bad() { return }
    p16::<(bool,N<3>)>(c, "(bool,N<3>)"); if c.bad() { return }
    p16::<(N<3>,N<5>)>(c, "(N<3>,N<5>)"); if c.bad() { return }
    p16::<[bool;3]>(c, "[bool;3]"); if c.bad() { return }
    p16::<[bool;8]>(c, "[bool;8]"); if c.bad() { return }
    p16::<N<1>>(c, "N<1>"); if c.bad() { return }
    p16::<N<2>>(c, "N<2>"); if c.bad() { return }
    p16::<N<127>>(c, "N<127>"); if c.bad() { return }
    p16::<N<128>>(c, "N<128>"); if c.bad() { return }
    p16::<N<129>>(c, "N<129>"); if c.bad() { return }
    p16::<N<255>>(c, "N<255>"); if c.bad() { return }
    p16::<N<256>>(c, "N<256>"); if c.bad() { return }
    p16::<Option<N<255>>>(c, "Option<N<255>>"); if c.bad() { return }
    p16::<(N<16>,N<16>)>(c, "(N<16>,N<16>)"); if c.bad() { return }
    p16::<Result<N<128>,N<128>>>(c, "Result<N<128>,N<128>>"); if c.bad() { return }
    p16::<[N<4>;4]>(c, "[N<4>;4]"); if c.bad() { return }
    p16::<[N<6>;3]>(c, "[N<6>;3]"); if c.bad() { return }
    p16::<Option<[N<3>;5]>>(c, "Option<[N<3>;5]>"); if c.bad() { return }
    p16::<N<257>>(c, "N<257>"); if c.bad() { return }
    p16::<N<1000>>(c, "N<1000>"); if c.bad() { return }
    p16::<N<32769>>(c, "N<32769>"); if c.bad() { return }
    p16::<N<65535>>(c, "N<65535>"); if c.bad() { return }
    p16::<N<65536>>(c, "N<65536>"); if c.bad() { return }
    p16::<Option<N<65535>>>(c, "Option<N<65535>>"); if c.bad() { return }
    p16::<[bool;16]>(c, "[bool;16]"); if c.bad() { return }
    p16::<(N<256>,N<256>)>(c, "(N<256>,N<256>)"); if c.bad() { return }
    p16::<Result<N<32768>,N<32768>>>(c, "Result<N<32768>,N<32768>>"); if c.bad() { return }
    p16::<([N<4>;4],Option<N<200>>)>(c, "([N<4>;4],Option<N<200>>)"); if c.bad() { return }
    p16::<[N<16>;4]>(c, "[N<16>;4]"); if c.bad() { return }
}
