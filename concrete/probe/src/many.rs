// 300 variants, more than a byte can number (a polyvar is told apart by its tag)
use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename = "Polyvar")]
pub enum Many {
    Aa,
    Ab(u16),
    Ac(bool, u8),
    Ad,
    Ae(u16),
    Af(bool, u8),
    Ag,
    Ah(u16),
    Ai(bool, u8),
    Aj,
    Ak(u16),
    Al(bool, u8),
    Am,
    An(u16),
    Ao(bool, u8),
    Ap,
    Aq(u16),
    Ar(bool, u8),
    As,
    At(u16),
    Au(bool, u8),
    Av,
    Aw(u16),
    Ax(bool, u8),
    Ay,
    Az(u16),
    Ba(bool, u8),
    Bb,
    Bc(u16),
    Bd(bool, u8),
    Be,
    Bf(u16),
    Bg(bool, u8),
    Bh,
    Bi(u16),
    Bj(bool, u8),
    Bk,
    Bl(u16),
    Bm(bool, u8),
    Bn,
    Bo(u16),
    Bp(bool, u8),
    Bq,
    Br(u16),
    Bs(bool, u8),
    Bt,
    Bu(u16),
    Bv(bool, u8),
    Bw,
    Bx(u16),
    By(bool, u8),
    Bz,
    Ca(u16),
    Cb(bool, u8),
    Cc,
    Cd(u16),
    Ce(bool, u8),
    Cf,
    Cg(u16),
    Ch(bool, u8),
    Ci,
    Cj(u16),
    Ck(bool, u8),
    Cl,
    Cm(u16),
    Cn(bool, u8),
    Co,
    Cp(u16),
    Cq(bool, u8),
    Cr,
    Cs(u16),
    Ct(bool, u8),
    Cu,
    Cv(u16),
    Cw(bool, u8),
    Cx,
    Cy(u16),
    Cz(bool, u8),
    Da,
    Db(u16),
    Dc(bool, u8),
    Dd,
    De(u16),
    Df(bool, u8),
    Dg,
    Dh(u16),
    Di(bool, u8),
    Dj,
    Dk(u16),
    Dl(bool, u8),
    Dm,
    Dn(u16),
    Do(bool, u8),
    Dp,
    Dq(u16),
    Dr(bool, u8),
    Ds,
    Dt(u16),
    Du(bool, u8),
    Dv,
    Dw(u16),
    Dx(bool, u8),
    Dy,
    Dz(u16),
    Ea(bool, u8),
    Eb,
    Ec(u16),
    Ed(bool, u8),
    Ee,
    Ef(u16),
    Eg(bool, u8),
    Eh,
    Ei(u16),
    Ej(bool, u8),
    Ek,
    El(u16),
    Em(bool, u8),
    En,
    Eo(u16),
    Ep(bool, u8),
    Eq,
    Er(u16),
    Es(bool, u8),
    Et,
    Eu(u16),
    Ev(bool, u8),
    Ew,
    Ex(u16),
    Ey(bool, u8),
    Ez,
    Fa(u16),
    Fb(bool, u8),
    Fc,
    Fd(u16),
    Fe(bool, u8),
    Ff,
    Fg(u16),
    Fh(bool, u8),
    Fi,
    Fj(u16),
    Fk(bool, u8),
    Fl,
    Fm(u16),
    Fn(bool, u8),
    Fo,
    Fp(u16),
    Fq(bool, u8),
    Fr,
    Fs(u16),
    Ft(bool, u8),
    Fu,
    Fv(u16),
    Fw(bool, u8),
    Fx,
    Fy(u16),
    Fz(bool, u8),
    Ga,
    Gb(u16),
    Gc(bool, u8),
    Gd,
    Ge(u16),
    Gf(bool, u8),
    Gg,
    Gh(u16),
    Gi(bool, u8),
    Gj,
    Gk(u16),
    Gl(bool, u8),
    Gm,
    Gn(u16),
    Go(bool, u8),
    Gp,
    Gq(u16),
    Gr(bool, u8),
    Gs,
    Gt(u16),
    Gu(bool, u8),
    Gv,
    Gw(u16),
    Gx(bool, u8),
    Gy,
    Gz(u16),
    Ha(bool, u8),
    Hb,
    Hc(u16),
    Hd(bool, u8),
    He,
    Hf(u16),
    Hg(bool, u8),
    Hh,
    Hi(u16),
    Hj(bool, u8),
    Hk,
    Hl(u16),
    Hm(bool, u8),
    Hn,
    Ho(u16),
    Hp(bool, u8),
    Hq,
    Hr(u16),
    Hs(bool, u8),
    Ht,
    Hu(u16),
    Hv(bool, u8),
    Hw,
    Hx(u16),
    Hy(bool, u8),
    Hz,
    Ia(u16),
    Ib(bool, u8),
    Ic,
    Id(u16),
    Ie(bool, u8),
    If,
    Ig(u16),
    Ih(bool, u8),
    Ii,
    Ij(u16),
    Ik(bool, u8),
    Il,
    Im(u16),
    In(bool, u8),
    Io,
    Ip(u16),
    Iq(bool, u8),
    Ir,
    Is(u16),
    It(bool, u8),
    Iu,
    Iv(u16),
    Iw(bool, u8),
    Ix,
    Iy(u16),
    Iz(bool, u8),
    Ja,
    Jb(u16),
    Jc(bool, u8),
    Jd,
    Je(u16),
    Jf(bool, u8),
    Jg,
    Jh(u16),
    Ji(bool, u8),
    Jj,
    Jk(u16),
    Jl(bool, u8),
    Jm,
    Jn(u16),
    Jo(bool, u8),
    Jp,
    Jq(u16),
    Jr(bool, u8),
    Js,
    Jt(u16),
    Ju(bool, u8),
    Jv,
    Jw(u16),
    Jx(bool, u8),
    Jy,
    Jz(u16),
    Ka(bool, u8),
    Kb,
    Kc(u16),
    Kd(bool, u8),
    Ke,
    Kf(u16),
    Kg(bool, u8),
    Kh,
    Ki(u16),
    Kj(bool, u8),
    Kk,
    Kl(u16),
    Km(bool, u8),
    Kn,
    Ko(u16),
    Kp(bool, u8),
    Kq,
    Kr(u16),
    Ks(bool, u8),
    Kt,
    Ku(u16),
    Kv(bool, u8),
    Kw,
    Kx(u16),
    Ky(bool, u8),
    Kz,
    La(u16),
    Lb(bool, u8),
    Lc,
    Ld(u16),
    Le(bool, u8),
    Lf,
    Lg(u16),
    Lh(bool, u8),
    Li,
    Lj(u16),
    Lk(bool, u8),
    Ll,
    Lm(u16),
    Ln(bool, u8),
}
use Many::*;
pub fn many(i: usize, n: u16) -> (&'static str, Many) {
    match i {
        0 => ("Aa", Aa),
        1 => ("Ab", Ab(n)),
        2 => ("Ac", Ac(n % 2 == 1, n as u8)),
        3 => ("Ad", Ad),
        4 => ("Ae", Ae(n)),
        5 => ("Af", Af(n % 2 == 1, n as u8)),
        6 => ("Ag", Ag),
        7 => ("Ah", Ah(n)),
        8 => ("Ai", Ai(n % 2 == 1, n as u8)),
        9 => ("Aj", Aj),
        10 => ("Ak", Ak(n)),
        11 => ("Al", Al(n % 2 == 1, n as u8)),
        12 => ("Am", Am),
        13 => ("An", An(n)),
        14 => ("Ao", Ao(n % 2 == 1, n as u8)),
        15 => ("Ap", Ap),
        16 => ("Aq", Aq(n)),
        17 => ("Ar", Ar(n % 2 == 1, n as u8)),
        18 => ("As", As),
        19 => ("At", At(n)),
        20 => ("Au", Au(n % 2 == 1, n as u8)),
        21 => ("Av", Av),
        22 => ("Aw", Aw(n)),
        23 => ("Ax", Ax(n % 2 == 1, n as u8)),
        24 => ("Ay", Ay),
        25 => ("Az", Az(n)),
        26 => ("Ba", Ba(n % 2 == 1, n as u8)),
        27 => ("Bb", Bb),
        28 => ("Bc", Bc(n)),
        29 => ("Bd", Bd(n % 2 == 1, n as u8)),
        30 => ("Be", Be),
        31 => ("Bf", Bf(n)),
        32 => ("Bg", Bg(n % 2 == 1, n as u8)),
        33 => ("Bh", Bh),
        34 => ("Bi", Bi(n)),
        35 => ("Bj", Bj(n % 2 == 1, n as u8)),
        36 => ("Bk", Bk),
        37 => ("Bl", Bl(n)),
        38 => ("Bm", Bm(n % 2 == 1, n as u8)),
        39 => ("Bn", Bn),
        40 => ("Bo", Bo(n)),
        41 => ("Bp", Bp(n % 2 == 1, n as u8)),
        42 => ("Bq", Bq),
        43 => ("Br", Br(n)),
        44 => ("Bs", Bs(n % 2 == 1, n as u8)),
        45 => ("Bt", Bt),
        46 => ("Bu", Bu(n)),
        47 => ("Bv", Bv(n % 2 == 1, n as u8)),
        48 => ("Bw", Bw),
        49 => ("Bx", Bx(n)),
        50 => ("By", By(n % 2 == 1, n as u8)),
        51 => ("Bz", Bz),
        52 => ("Ca", Ca(n)),
        53 => ("Cb", Cb(n % 2 == 1, n as u8)),
        54 => ("Cc", Cc),
        55 => ("Cd", Cd(n)),
        56 => ("Ce", Ce(n % 2 == 1, n as u8)),
        57 => ("Cf", Cf),
        58 => ("Cg", Cg(n)),
        59 => ("Ch", Ch(n % 2 == 1, n as u8)),
        60 => ("Ci", Ci),
        61 => ("Cj", Cj(n)),
        62 => ("Ck", Ck(n % 2 == 1, n as u8)),
        63 => ("Cl", Cl),
        64 => ("Cm", Cm(n)),
        65 => ("Cn", Cn(n % 2 == 1, n as u8)),
        66 => ("Co", Co),
        67 => ("Cp", Cp(n)),
        68 => ("Cq", Cq(n % 2 == 1, n as u8)),
        69 => ("Cr", Cr),
        70 => ("Cs", Cs(n)),
        71 => ("Ct", Ct(n % 2 == 1, n as u8)),
        72 => ("Cu", Cu),
        73 => ("Cv", Cv(n)),
        74 => ("Cw", Cw(n % 2 == 1, n as u8)),
        75 => ("Cx", Cx),
        76 => ("Cy", Cy(n)),
        77 => ("Cz", Cz(n % 2 == 1, n as u8)),
        78 => ("Da", Da),
        79 => ("Db", Db(n)),
        80 => ("Dc", Dc(n % 2 == 1, n as u8)),
        81 => ("Dd", Dd),
        82 => ("De", De(n)),
        83 => ("Df", Df(n % 2 == 1, n as u8)),
        84 => ("Dg", Dg),
        85 => ("Dh", Dh(n)),
        86 => ("Di", Di(n % 2 == 1, n as u8)),
        87 => ("Dj", Dj),
        88 => ("Dk", Dk(n)),
        89 => ("Dl", Dl(n % 2 == 1, n as u8)),
        90 => ("Dm", Dm),
        91 => ("Dn", Dn(n)),
        92 => ("Do", Do(n % 2 == 1, n as u8)),
        93 => ("Dp", Dp),
        94 => ("Dq", Dq(n)),
        95 => ("Dr", Dr(n % 2 == 1, n as u8)),
        96 => ("Ds", Ds),
        97 => ("Dt", Dt(n)),
        98 => ("Du", Du(n % 2 == 1, n as u8)),
        99 => ("Dv", Dv),
        100 => ("Dw", Dw(n)),
        101 => ("Dx", Dx(n % 2 == 1, n as u8)),
        102 => ("Dy", Dy),
        103 => ("Dz", Dz(n)),
        104 => ("Ea", Ea(n % 2 == 1, n as u8)),
        105 => ("Eb", Eb),
        106 => ("Ec", Ec(n)),
        107 => ("Ed", Ed(n % 2 == 1, n as u8)),
        108 => ("Ee", Ee),
        109 => ("Ef", Ef(n)),
        110 => ("Eg", Eg(n % 2 == 1, n as u8)),
        111 => ("Eh", Eh),
        112 => ("Ei", Ei(n)),
        113 => ("Ej", Ej(n % 2 == 1, n as u8)),
        114 => ("Ek", Ek),
        115 => ("El", El(n)),
        116 => ("Em", Em(n % 2 == 1, n as u8)),
        117 => ("En", En),
        118 => ("Eo", Eo(n)),
        119 => ("Ep", Ep(n % 2 == 1, n as u8)),
        120 => ("Eq", Eq),
        121 => ("Er", Er(n)),
        122 => ("Es", Es(n % 2 == 1, n as u8)),
        123 => ("Et", Et),
        124 => ("Eu", Eu(n)),
        125 => ("Ev", Ev(n % 2 == 1, n as u8)),
        126 => ("Ew", Ew),
        127 => ("Ex", Ex(n)),
        128 => ("Ey", Ey(n % 2 == 1, n as u8)),
        129 => ("Ez", Ez),
        130 => ("Fa", Fa(n)),
        131 => ("Fb", Fb(n % 2 == 1, n as u8)),
        132 => ("Fc", Fc),
        133 => ("Fd", Fd(n)),
        134 => ("Fe", Fe(n % 2 == 1, n as u8)),
        135 => ("Ff", Ff),
        136 => ("Fg", Fg(n)),
        137 => ("Fh", Fh(n % 2 == 1, n as u8)),
        138 => ("Fi", Fi),
        139 => ("Fj", Fj(n)),
        140 => ("Fk", Fk(n % 2 == 1, n as u8)),
        141 => ("Fl", Fl),
        142 => ("Fm", Fm(n)),
        143 => ("Fn", Fn(n % 2 == 1, n as u8)),
        144 => ("Fo", Fo),
        145 => ("Fp", Fp(n)),
        146 => ("Fq", Fq(n % 2 == 1, n as u8)),
        147 => ("Fr", Fr),
        148 => ("Fs", Fs(n)),
        149 => ("Ft", Ft(n % 2 == 1, n as u8)),
        150 => ("Fu", Fu),
        151 => ("Fv", Fv(n)),
        152 => ("Fw", Fw(n % 2 == 1, n as u8)),
        153 => ("Fx", Fx),
        154 => ("Fy", Fy(n)),
        155 => ("Fz", Fz(n % 2 == 1, n as u8)),
        156 => ("Ga", Ga),
        157 => ("Gb", Gb(n)),
        158 => ("Gc", Gc(n % 2 == 1, n as u8)),
        159 => ("Gd", Gd),
        160 => ("Ge", Ge(n)),
        161 => ("Gf", Gf(n % 2 == 1, n as u8)),
        162 => ("Gg", Gg),
        163 => ("Gh", Gh(n)),
        164 => ("Gi", Gi(n % 2 == 1, n as u8)),
        165 => ("Gj", Gj),
        166 => ("Gk", Gk(n)),
        167 => ("Gl", Gl(n % 2 == 1, n as u8)),
        168 => ("Gm", Gm),
        169 => ("Gn", Gn(n)),
        170 => ("Go", Go(n % 2 == 1, n as u8)),
        171 => ("Gp", Gp),
        172 => ("Gq", Gq(n)),
        173 => ("Gr", Gr(n % 2 == 1, n as u8)),
        174 => ("Gs", Gs),
        175 => ("Gt", Gt(n)),
        176 => ("Gu", Gu(n % 2 == 1, n as u8)),
        177 => ("Gv", Gv),
        178 => ("Gw", Gw(n)),
        179 => ("Gx", Gx(n % 2 == 1, n as u8)),
        180 => ("Gy", Gy),
        181 => ("Gz", Gz(n)),
        182 => ("Ha", Ha(n % 2 == 1, n as u8)),
        183 => ("Hb", Hb),
        184 => ("Hc", Hc(n)),
        185 => ("Hd", Hd(n % 2 == 1, n as u8)),
        186 => ("He", He),
        187 => ("Hf", Hf(n)),
        188 => ("Hg", Hg(n % 2 == 1, n as u8)),
        189 => ("Hh", Hh),
        190 => ("Hi", Hi(n)),
        191 => ("Hj", Hj(n % 2 == 1, n as u8)),
        192 => ("Hk", Hk),
        193 => ("Hl", Hl(n)),
        194 => ("Hm", Hm(n % 2 == 1, n as u8)),
        195 => ("Hn", Hn),
        196 => ("Ho", Ho(n)),
        197 => ("Hp", Hp(n % 2 == 1, n as u8)),
        198 => ("Hq", Hq),
        199 => ("Hr", Hr(n)),
        200 => ("Hs", Hs(n % 2 == 1, n as u8)),
        201 => ("Ht", Ht),
        202 => ("Hu", Hu(n)),
        203 => ("Hv", Hv(n % 2 == 1, n as u8)),
        204 => ("Hw", Hw),
        205 => ("Hx", Hx(n)),
        206 => ("Hy", Hy(n % 2 == 1, n as u8)),
        207 => ("Hz", Hz),
        208 => ("Ia", Ia(n)),
        209 => ("Ib", Ib(n % 2 == 1, n as u8)),
        210 => ("Ic", Ic),
        211 => ("Id", Id(n)),
        212 => ("Ie", Ie(n % 2 == 1, n as u8)),
        213 => ("If", If),
        214 => ("Ig", Ig(n)),
        215 => ("Ih", Ih(n % 2 == 1, n as u8)),
        216 => ("Ii", Ii),
        217 => ("Ij", Ij(n)),
        218 => ("Ik", Ik(n % 2 == 1, n as u8)),
        219 => ("Il", Il),
        220 => ("Im", Im(n)),
        221 => ("In", In(n % 2 == 1, n as u8)),
        222 => ("Io", Io),
        223 => ("Ip", Ip(n)),
        224 => ("Iq", Iq(n % 2 == 1, n as u8)),
        225 => ("Ir", Ir),
        226 => ("Is", Is(n)),
        227 => ("It", It(n % 2 == 1, n as u8)),
        228 => ("Iu", Iu),
        229 => ("Iv", Iv(n)),
        230 => ("Iw", Iw(n % 2 == 1, n as u8)),
        231 => ("Ix", Ix),
        232 => ("Iy", Iy(n)),
        233 => ("Iz", Iz(n % 2 == 1, n as u8)),
        234 => ("Ja", Ja),
        235 => ("Jb", Jb(n)),
        236 => ("Jc", Jc(n % 2 == 1, n as u8)),
        237 => ("Jd", Jd),
        238 => ("Je", Je(n)),
        239 => ("Jf", Jf(n % 2 == 1, n as u8)),
        240 => ("Jg", Jg),
        241 => ("Jh", Jh(n)),
        242 => ("Ji", Ji(n % 2 == 1, n as u8)),
        243 => ("Jj", Jj),
        244 => ("Jk", Jk(n)),
        245 => ("Jl", Jl(n % 2 == 1, n as u8)),
        246 => ("Jm", Jm),
        247 => ("Jn", Jn(n)),
        248 => ("Jo", Jo(n % 2 == 1, n as u8)),
        249 => ("Jp", Jp),
        250 => ("Jq", Jq(n)),
        251 => ("Jr", Jr(n % 2 == 1, n as u8)),
        252 => ("Js", Js),
        253 => ("Jt", Jt(n)),
        254 => ("Ju", Ju(n % 2 == 1, n as u8)),
        255 => ("Jv", Jv),
        256 => ("Jw", Jw(n)),
        257 => ("Jx", Jx(n % 2 == 1, n as u8)),
        258 => ("Jy", Jy),
        259 => ("Jz", Jz(n)),
        260 => ("Ka", Ka(n % 2 == 1, n as u8)),
        261 => ("Kb", Kb),
        262 => ("Kc", Kc(n)),
        263 => ("Kd", Kd(n % 2 == 1, n as u8)),
        264 => ("Ke", Ke),
        265 => ("Kf", Kf(n)),
        266 => ("Kg", Kg(n % 2 == 1, n as u8)),
        267 => ("Kh", Kh),
        268 => ("Ki", Ki(n)),
        269 => ("Kj", Kj(n % 2 == 1, n as u8)),
        270 => ("Kk", Kk),
        271 => ("Kl", Kl(n)),
        272 => ("Km", Km(n % 2 == 1, n as u8)),
        273 => ("Kn", Kn),
        274 => ("Ko", Ko(n)),
        275 => ("Kp", Kp(n % 2 == 1, n as u8)),
        276 => ("Kq", Kq),
        277 => ("Kr", Kr(n)),
        278 => ("Ks", Ks(n % 2 == 1, n as u8)),
        279 => ("Kt", Kt),
        280 => ("Ku", Ku(n)),
        281 => ("Kv", Kv(n % 2 == 1, n as u8)),
        282 => ("Kw", Kw),
        283 => ("Kx", Kx(n)),
        284 => ("Ky", Ky(n % 2 == 1, n as u8)),
        285 => ("Kz", Kz),
        286 => ("La", La(n)),
        287 => ("Lb", Lb(n % 2 == 1, n as u8)),
        288 => ("Lc", Lc),
        289 => ("Ld", Ld(n)),
        290 => ("Le", Le(n % 2 == 1, n as u8)),
        291 => ("Lf", Lf),
        292 => ("Lg", Lg(n)),
        293 => ("Lh", Lh(n % 2 == 1, n as u8)),
        294 => ("Li", Li),
        295 => ("Lj", Lj(n)),
        296 => ("Lk", Lk(n % 2 == 1, n as u8)),
        297 => ("Ll", Ll),
        298 => ("Lm", Lm(n)),
        299 => ("Ln", Ln(n % 2 == 1, n as u8)),
        _ => unreachable!(),
    }
}
