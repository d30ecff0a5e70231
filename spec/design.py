import json,re,glob
M={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
ORA={
"P01":"model walk in big integers; plus, independently of the model, the exact integral of the curve brackets every amount",
"P02":"recorded quote >= exact value of the curve to the current price; base held >= exact remainder; trader's balance never rises at unchanged base",
"P03":"direction of price, start and migration price as hard limits",
"P04":"token balances of every account before/after against the emitted records and the caller's limit; refused = universe unchanged",
"P05":"fee formula recomputed from the charged rate; parts add up; counters equal running sums (ghost state along the history)",
"P06":"closed-form schedule in big integers; monotone in time; charged on a real trade at that instant",
"P07":"tier-by-tier sum computed one tier at a time; inverse: fee(gross(net)) gives back net; monotone within one unit",
"P08":"number of trades of the pool in the transaction counted by the explorer; at most one while the window is open",
"P09":"exact recomputation of references, accumulator and rate from the trade history (ghost state)",
"P10":"the reduced rate is seen exactly on the first trade bundled with the pool's creation by a top-level instruction",
"P11":"vault balances >= sum of everything recorded as owed; lamports conserved; total tokens conserved (mint supply)",
"P12":"each amount paid out at most once, to its party, in the amount the model computes; nothing owed afterwards",
"P13":"claimed + outstanding = accrued for each of partner, creator and protocol, over the whole history",
"P14":"lamports of pool, treasury and partner; each part once",
"P15":"the stage number never decreases, moves by allowed edges, each edge once, curve frozen from completion on; finish time as of completion",
"P16":"operation succeeds iff the signer is the entitled party (derived from roles recorded in the universe, not from the program)",
"P17":"an operation with one account replaced must fail, or be demonstrably the legitimate operation of the other pool, or not change anything of value",
"P18":"independent validator (refcfg) accepts exactly the same parameter sets and predicts every stored byte; each accepted set is driven to migration on the program",
"P19":"from every reached state: sell back, complete, migrate, withdraw everything; only dust allowed by the statement remains",
"P20":"every byte of pool, mints, vaults and metadata computed from the parameters; refused = unchanged",
"P21":"the SDK crate's own quote functions called on the same state, then the trade executed and compared field by field",
"P22":"deposit amounts from the closed form; the created market's configuration against the promised list",
"P23":"share arithmetic from the lock/claim record; each part once; owner as recorded",
"P24":"deposit, price and fee settings of the market the stand-in was asked to create, against the configuration",
"P25":"arguments of the locker call against the schedule; vault debited by exactly the vested total; migration refused before",
"P26":"frame condition on every byte of the universe: only the creator field moves; rights follow",
"P27":"positions created by the stand-in: owner, amount, vesting and permanent lock against the shares",
"P28":"owner of the receiving token account is the treasury; zap path only with the settlement operation following in the same transaction",
"P29":"byte equality of configuration and of the pool's identity fields along every history",
"P30":"locked fraction one day after migration measured from the stand-in's positions with the vesting formula, never below 10 percent for any accepted configuration",
"P31":"frame condition across pools; commutation of every pair of operations on distinct pools",
"P32":"adversarial external program performs one misdeed per run with whatever privileges the call hands to it; the transaction must fail or the misdeed be without effect",
"P33":"record bytes = given text; second write refused; right signer; rent exact",
"P34":"operator record created/closed by an administrator only; permitted operation iff the bit is set; all others unchanged",
}
out=open('/verif/spec/DESIGN.head.md').read()
rows=[]
for p in P:
    i=p['id']; e=json.load(open(f'/verif/evidence/{i}.json'))
    n=M[i]['level_note']; b=re.search(r'Bound: (.*?)\.? ?Trusted',n).group(1).strip()
    c=e['coverage']
    rows.append(f"### {i} {p['title']}\n\n- **Explored:** {b}.\n- **Oracle (beyond lockstep agreement with the model):** {ORA[i]}.\n- **Quick run:** {c['states']:,} states, {c['transitions']:,} transitions, {c['traces_validated_against_impl']:,} complete histories, {e['wall_s']:.0f} s on 8 cores.\n- **Out of the tests' reach because:** {p['why_tests_cant'].split('build. ',1)[-1]}\n")
out=out.replace('@@PROPERTIES@@','\n'.join(rows))
t='| planted change | property | what it breaks | needs |\n|---|---|---|---|\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); t+=f"| {f.split('/')[3]} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |\n"
out=out.replace('@@SEEDS@@',t)
open('/verif/DESIGN.md','w').write(out)
