use crate::explore::Cx;
mod auth;
mod claims;
mod common;
mod config;
mod fees;
mod life;
mod lp;
mod rights;
mod smoke;
mod trading;
mod whole;
pub type Check = fn(&Cx);
pub const ALL: &[(&str, Check)] = &[
    ("Z00", smoke::z00),
    ("P01", trading::p01),
    ("P02", trading::p02),
    ("P03", trading::p03),
    ("P04", trading::p04),
    ("P05", fees::p05),
    ("P06", fees::p06),
    ("P07", fees::p07),
    ("P08", fees::p08),
    ("P09", fees::p09),
    ("P10", fees::p10),
    ("P11", claims::p11),
    ("P12", claims::p12),
    ("P13", claims::p13),
    ("P14", claims::p14),
    ("P28", claims::p28),
    ("P21", trading::p21),
    ("P15", life::p15),
    ("P19", life::p19),
    ("P22", life::p22),
    ("P23", life::p23),
    ("P24", life::p24),
    ("P25", life::p25),
    ("P26", lp::p26),
    ("P27", lp::p27),
    ("P30", lp::p30),
    ("P32", lp::p32),
    ("P17", auth::p17),
    ("P16", rights::p16),
    ("P29", rights::p29),
    ("P31", rights::p31),
    ("P33", rights::p33),
    ("P34", rights::p34),
    ("P18", config::p18),
    ("P20", config::p20),
];
/// operations whose accounts are also exchanged for every other account, and mixed with another pool's, under this property
const EXCHANGED: &[(&str, &[&str])] = &[
    ("P04", &["buy exact-in", "buy partial-fill", "sell exact-in", "sell partial-fill"]),
    ("P12", &["partner surplus", "creator surplus", "migration fee", "leftover"]),
    ("P13", &["partner claims trading fee", "creator claims trading fee"]),
    ("P14", &["partner claims creation fee", "protocol claims creation fee"]),
    (
        "P16",
        &[
            "partner claims trading fee", "creator claims trading fee", "partner claims creation fee", "protocol claims creation fee", "partner surplus",
            "creator surplus", "migration fee", "transfer creator", "protocol fee claim", "zap protocol fee", "create operator", "close operator",
        ],
    ),
    ("P20", &["create pool"]),
    ("P22", &["migrate v1", "v1 metadata"]),
    ("P23", &["v1 lock", "v1 claim"]),
    ("P24", &["migrate v2"]),
    ("P25", &["locker"]),
    ("P26", &["transfer creator"]),
    ("P28", &["protocol fee claim", "zap protocol fee", "protocol claims creation fee"]),
    ("P33", &["pool metadata", "partner metadata"]),
    ("P34", &["create operator", "close operator"]),
];
pub fn run(id: &str, f: Check, cx: &Cx) {
    f(cx);
    if whole::USED.contains(&id) && !cx.failed() {
        whole::lives(cx);
    }
    if ["P11", "P31"].contains(&id) && !cx.failed() {
        auth::exchanges(cx, |_| true);
    }
    if let (Some((_, ops)), false) = (EXCHANGED.iter().find(|x| x.0 == id), cx.failed()) {
        auth::exchanges(cx, |o| ops.contains(&o));
    }
}
pub const ASSUMPTIONS: &[&str] = &[
    "the program is compiled natively and run in an in-memory runtime that enforces ownership, signer/writable privileges, lamport conservation, rent and atomic rollback",
    "SPL Token and Token-2022 are the real processors; metaplex, DAMM v1, DAMM v2, vault, locker and zap are stand-ins that implement the documented effects",
];
