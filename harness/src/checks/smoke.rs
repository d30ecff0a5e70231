use crate::explore::*;
use crate::lock::*;
use crate::refm::*;
use crate::worlds::*;
pub fn z00(cx: &Cx) {
    let mut s = vec![];
    let zoo = zoo(cx.pick(2, 3));
    println!("{} worlds", zoo.len());
    for (n, p, q) in zoo {
        match build_world(&n, &p, q) {
            Ok(w) => {
                let pool = w.w.p.clone();
                s.push(scn(n, &w.w.bank, &pool, cx.pick(3, 4), move |b| {
                    let mut v: Vec<Tx> = vec![];
                    for m in 0..3 {
                        for buy in [true, false] {
                            for a in [1, 1000, 100_000, 1 << 50] {
                                v.push(ix1(Act::swap(buy, m, a)));
                            }
                        }
                    }
                    for a in [
                        Act::ClaimPartner { who: "partner", a: u64::MAX, b: u64::MAX },
                        Act::ClaimCreator { who: "creator", a: u64::MAX, b: u64::MAX },
                        Act::ClaimProtocol { op: "operator", who: "operator", a: u64::MAX, b: u64::MAX },
                        Act::Zap { op: "operator", who: "operator", base: true, max: u64::MAX },
                        Act::Zap { op: "operator", who: "operator", base: false, max: u64::MAX },
                        Act::ProtCreationFee { op: "operator", who: "operator" },
                        Act::PartnerCreationFee { who: "partner", to: "stranger" },
                        Act::PartnerSurplus { who: "partner" },
                        Act::CreatorSurplus { who: "creator" },
                        Act::MigFee { who: "partner", flag: 0 },
                        Act::MigFee { who: "creator", flag: 1 },
                        Act::Leftover,
                        Act::Transfer { who: "creator", new: "newcreator", meta: true },
                        Act::Locker { creator: "creator" },
                        Act::MigrateV2 { second: true },
                        Act::MigrateV2 { second: false },
                        Act::V1Meta,
                        Act::MigrateV1,
                        Act::V1Lock { owner: "partner" },
                        Act::V1Lock { owner: "creator" },
                        Act::V1Claim { owner: "partner", sender: "stranger" },
                        Act::V1Claim { owner: "creator", sender: "stranger" },
                        Act::Advance { secs: 13, slots: 31 },
                    ] {
                        v.push(ix1(a));
                    }
                    let _ = b;
                    v
                }));
            }
            Err(e) => println!("{e}"),
        }
    }
    cx.bfs(s);
}
