#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the diffs in /tmp/mut/p (made by mutants.py) and the demos below."""
import json,os,shutil,sys,stat
HERE=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'
S={}
def e(id,prop,needs,breaks,body): S[id]=(prop,'E',needs,breaks,body)
def l(id,prop,needs,breaks,body): S[id]=(prop,'L',needs,breaks,body)
def b(id,prop,needs,breaks,body): S[id]=(prop,'B',needs,breaks,body)
def fl(id,prop,needs,breaks,body): S[id]=(prop,'F',needs,breaks,body)

e('e01b','E01','two ranges meeting at a tick, and a withdrawal that makes the net liquidity there exactly zero',
 'a tick still referenced by two positions is dropped from the registry of initialised ticks','''
    let mut p = pool(150, 1, 0, 3000);
    p.deposit("a", int(1), int(1), mid(100), mid(200));
    let la = v(p.glbl_liq());
    let lb = v(PM::liq_from_x_y_rp_rng(int(1000), int(0), p.glbl_rp(), PM::tick_to_rp(200), PM::tick_to_rp(300)));
    assert!(lb > la);
    p.deposit("b", int(1000), int(0), mid(200), mid(300));
    p.withdraw("b", raw(lb - la), mid(200), mid(300));
    assert_eq!(p.tick_keys_cloned(false), vec![100, 200, 300]);
''')
e('e03b','E03','a swap from Y, with fees, that exhausts all the liquidity above',
 'the report of a partially filled swap leaves out the fee that was taken','''
    let mut p = pool(1000, 1, 0, 100_000);
    p.deposit("a", int(1), int(1), mid(990), mid(1010));
    let (y0, _, f0) = p.y_info();
    let r = p.execute_swap_from_y(int(10), int(0));
    let (y1, _, f1) = p.y_info();
    assert!(v(r.recv_amount()) < v(int(10)));
    assert_eq!(v(y1) - v(y0) + v(f1) - v(f0), v(r.recv_amount()));
''')
e('e03c','E03','an oracle price above, a positive HMM constant and a swap from Y that crosses a tick',
 'the adjustment withheld is put in the pot and also left in the reserve when a tick is crossed','''
    let mut p = pool(2001, 1, 150, 100_000);
    p.deposit("a", int(1), int(1), mid(1984), mid(2024));
    let (x0, a0, _) = p.x_info();
    let r = p.execute_swap_from_y(int(2), raw(1_105_662_802_098));
    let (x1, a1, _) = p.x_info();
    assert!(v(r.send_hmm_adj()) > 0);
    assert_eq!(v(a1) - v(a0), v(r.send_hmm_adj()));
    assert_eq!(v(x0) - v(x1), -v(r.send_amount()) + v(r.send_hmm_adj()));
''')
e('e04a','E04','a position drawn down to a very small liquidity (below 0.00005) but not to nil, then closed',
 'the position is closed early: what is left of it cannot be withdrawn any more','''
    let mut p = pool(150, 1, 0, 3000);
    p.deposit("a", int(1), int(1), mid(100), mid(200));
    p.deposit("b", int(1), int(1), mid(100), mid(200));
    let l = v(p.glbl_liq()) / 2;
    p.withdraw("b", raw(l - 40_000_000), mid(100), mid(200));
    assert_eq!(p.position_count(), 2);
    assert!(!refused(|| p.withdraw("b", raw(40_000_000), mid(100), mid(200))));
    assert_eq!(p.position_count(), 1);
''')
e('e05a','E07','two ranges of equal liquidity meeting at a tick, and a swap from Y that passes it',
 'the tick is passed without being crossed: the fees of the lower range go to the upper one','''
    let mut p = pool(150, 1, 0, 3000);
    p.deposit("a", int(1), int(1), mid(100), mid(200));
    let la = v(p.glbl_liq());
    let lb = v(PM::liq_from_x_y_rp_rng(int(1000), int(0), p.glbl_rp(), PM::tick_to_rp(200), PM::tick_to_rp(300)));
    p.deposit("b", int(1000), int(0), mid(200), mid(300));
    p.withdraw("b", raw(lb - la), mid(200), mid(300));
    let to200 = v(PM::dy_from_l_drp(raw(la), p.glbl_rp(), PM::tick_to_rp(200)));
    p.execute_swap_from_y(raw(to200 * 3 / 2), int(0));
    assert!(p.glbl_tick() > 200);
    let (_, _, f0) = p.y_info();
    p.withdraw("a", raw(la), mid(100), mid(200));
    let (_, _, f1) = p.y_info();
    near((v(f0) - v(f1)) as f64, to200 as f64 * 0.003 / 0.997, 1e6, "fee paid to the lower range");
''')
e('e07a','E07','a position opened so that one of its ends is exactly the current tick, after trades, then crossed',
 'the fees the position earns are lost to it','''
    let mut p = pool(3700, 10, 0, 100);
    p.deposit("a", int(1), int(1), mid(3680), mid(3690));
    p.execute_swap_from_x(int(1), int(0));
    assert_eq!(p.glbl_tick(), 3670);
    p.deposit("a", int(1), int(1), mid(3660), mid(3670));
    let l = PM::liq_from_x_y_rp_rng(int(1), int(1), p.glbl_rp(), PM::tick_to_rp(3660), PM::tick_to_rp(3670));
    let r = p.execute_swap_from_x(int(1), int(0));
    let (_, _, f0) = p.x_info();
    p.withdraw("a", l, mid(3660), mid(3670));
    let (_, _, f1) = p.x_info();
    near(f(f0) - f(f1), f(r.recv_fee()), 1e-8, "fee paid");
''')
e('e07b','E07','a collection (withdrawal of nothing) followed by a second collection or withdrawal of the same position',
 'the same fees are paid twice','''
    let mut p = pool(1587, 60, 0, 3000);
    p.deposit("a", int(1), int(1), mid(1380), mid(1800));
    let la = p.glbl_liq();
    p.deposit("b", int(1), int(1), mid(1500), mid(1800));
    p.execute_swap_from_x(raw(200_000_000_000), int(0));
    let (_, _, f0) = p.x_info();
    p.withdraw("a", int(0), mid(1380), mid(1800));
    let (_, _, f1) = p.x_info();
    assert!(v(f1) < v(f0));
    p.withdraw("a", la, mid(1380), mid(1800));
    let (_, _, f2) = p.x_info();
    near(f(f1) - f(f2), 0.0, 1e-10, "fee paid again");
''')
e('e07c','E07','a swap that ends a range with no liquidity beyond it (active liquidity nil when the next tick is crossed), and later collections',
 'the Y fee growth outside of a tick is not turned over, and fees go to the wrong provider','''
    let mut p = pool(285, 1, 0, 100_000);
    p.deposit("u0", int(1), raw(596_317_802_389), mid(286), mid(293));
    p.deposit("u3", int(1), int(1), mid(276), mid(293));
    p.execute_swap_from_y(int(1), int(0));
    p.execute_swap_from_x(int(3), int(0));
    let rp = p.glbl_rp();
    let l = PM::liq_from_x_y_rp_rng(int(1), int(1), rp, PM::tick_to_rp(276), PM::tick_to_rp(287));
    p.deposit("u4", int(1), int(1), mid(276), mid(287));
    p.execute_swap_from_y(int(1), int(0));
    let (_, _, f0) = p.y_info();
    p.withdraw("u4", l, mid(276), mid(287));
    let (_, _, f1) = p.y_info();
    near(f(f0) - f(f1), 0.045696372673, 1e-8, "fee paid");
''')
e('e08b','E08','withheld adjustments, a tick crossed to the left while there are some, and a later collection in range',
 'the X adjustment growth outside of a tick is only turned over from left to right: withheld X is lost to its owners','''
    let mut p = pool(1000, 1, 125, 3000);
    p.deposit("a", int(1), int(1), mid(900), mid(1100));
    p.deposit("b", int(1), int(1), mid(1000), mid(1050));
    let lb = PM::liq_from_x_y_rp_rng(int(1), int(1), p.glbl_rp(), PM::tick_to_rp(1000), PM::tick_to_rp(1050));
    let lall = p.glbl_liq();
    let r = p.execute_swap_from_y(raw(800_000_000_000), PM::tick_to_rp(1500));
    assert!(v(r.send_hmm_adj()) > 0 && p.glbl_tick() < 1050 && p.glbl_tick() > 1000);
    p.execute_swap_from_x(int(2), int(0));
    assert!(p.glbl_tick() < 1000);
    let (_, a0, _) = p.x_info();
    p.withdraw("b", lb, mid(1000), mid(1050));
    let (_, a1, _) = p.x_info();
    near(f(a0) - f(a1), f(r.send_hmm_adj()) * f(lb) / f(lall), 1e-9, "adjustment paid");
''')
e('e09a','E09','a withdrawal, in range, of more than the position holds while others provide liquidity there too',
 'the refused request has already lowered the active liquidity','''
    let mut p = pool(1586, 1, 0, 3000);
    p.deposit("a", int(1), int(1), mid(1500), mid(1700));
    let l = v(p.glbl_liq());
    p.deposit("b", int(1), int(1), mid(1500), mid(1700));
    let l2 = v(p.glbl_liq());
    assert!(refused(|| p.withdraw("a", raw(l + 1), mid(1500), mid(1700))));
    assert_eq!(v(p.glbl_liq()), l2);
''')
e('e10a','E10','a process that has served other requests before: prices of neighbouring ticks asked in ascending order',
 'the price of a tick depends on what was asked before, so a restarted process disagrees with the one that crashed','''
    let first: Vec<_> = [20_000u128, 20_003, 20_006].iter().map(|t| v(PM::tick_to_rp(*t))).collect();
    for t in 18_000..20_010u128 {
        PM::tick_to_rp(t);
    }
    for t in 19_000..19_100u128 {
        PM::tick_to_rp(t);
    }
    for t in 19_000..20_010u128 {
        PM::tick_to_rp(t);
    }
    let again: Vec<_> = [20_000u128, 20_003, 20_006].iter().map(|t| v(PM::tick_to_rp(*t))).collect();
    assert_eq!(first, again);
''')
e('e13a','E13','a deposit at a tick whose net liquidity is exactly nil, after fees have accrued, with three positions open',
 'the fee growth outside of the tick is reset by the newcomer: what others collect depends on who comes first','''
    let run = |join_first: bool| {
        let mut p = pool(150, 1, 0, 3000);
        p.deposit("a", int(1), int(1), mid(100), mid(200));
        let la = v(p.glbl_liq());
        let lb = v(PM::liq_from_x_y_rp_rng(int(1000), int(0), p.glbl_rp(), PM::tick_to_rp(200), PM::tick_to_rp(300)));
        p.deposit("b", int(1000), int(0), mid(200), mid(300));
        p.withdraw("b", raw(lb - la), mid(200), mid(300));
        p.deposit("c", int(1), int(1), mid(50), mid(400));
        let go = v(PM::dy_from_l_drp(p.glbl_liq(), p.glbl_rp(), PM::tick_to_rp(200)));
        p.execute_swap_from_y(raw(go * 3 / 2), int(0));
        assert!(p.glbl_tick() > 200 && p.glbl_tick() < 300);
        if join_first {
            p.deposit("d", int(1), int(1), mid(200), mid(320));
        }
        let (_, _, f0) = p.y_info();
        p.withdraw("b", raw(la), mid(200), mid(300));
        let (_, _, f1) = p.y_info();
        f(f0) - f(f1)
    };
    let (one, two) = (run(true), run(false));
    near(one, two, 1e-9, "fee paid to b");
''')
e('e14a','E14','the floating-point engine, an HMM constant, withheld adjustments in both tokens and a crossed tick',
 'in the float engine the Y adjustment growth outside of a tick is turned over with that of X','''
    use hmmcl_sandbox::cl_pool_float::{self as fl, PoolMath as _};
    struct FM;
    impl fl::PoolMath for FM {}
    let fm = |t: u32| (FM::tick_to_rp(t) + FM::tick_to_rp(t + 1)) * 0.5;
    let mut p = pool(1000, 1, 125, 3000);
    let mut q = fl::Pool::new("X", 9, "Y", 6, fm(1000), 1, 1.25, 0.003);
    for (u, lo, hi) in [("a", 900u128, 1100u128), ("b", 950, 990)] {
        p.deposit(u, int(1), int(1), mid(lo), mid(hi));
        q.deposit(u, 1.0, 1.0, fm(lo as u32), fm(hi as u32));
    }
    let lb = PM::liq_from_x_y_rp_rng(int(1), int(1), p.glbl_rp(), PM::tick_to_rp(950), PM::tick_to_rp(990));
    for (x, a, o) in [(false, 0.5, 1500u128), (true, 1.2, 500), (false, 0.9, 1500), (true, 0.9, 500)] {
        let w = raw((a * 1e12) as i128);
        if x {
            p.execute_swap_from_x(w, PM::tick_to_rp(o));
            q.execute_swap_from_x(a, FM::tick_to_rp(o as u32));
        } else {
            p.execute_swap_from_y(w, PM::tick_to_rp(o));
            q.execute_swap_from_y(a, FM::tick_to_rp(o as u32));
        }
    }
    p.withdraw("b", lb.div(Decimal::two()), mid(950), mid(990));
    q.withdraw("b", f(lb) * 0.5, fm(950), fm(990));
    near(q.y_info().1, f(p.y_info().1), 1e-4, "Y adjustments left");
    near(q.x_info().1, f(p.x_info().1), 1e-4, "X adjustments left");
''')
# ---------------------------------------------------------------- ledger
l('l01a','L01','a withdrawal from a range that ends exactly at the current tick, while others provide active liquidity',
 'liquidity that is not active is taken off the active liquidity','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 1, 50, 100);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]).len();
    c.ok(&[deposit(0, 1, 50, 100, 100, 0, 10)], &[1]);
    let before = c.pool(0).pool_global_state.liquidity;
    c.ok(&[withdraw(0, 1, 50, 100, 100, 5)], &[1]);
    assert_eq!(c.pool(0).pool_global_state.liquidity, before);
''')
l('l01b','L01','a tick that is the upper end of one range and the lower end of another, whose net liquidity turns from negative to positive',
 'the sign of the net liquidity of the tick is never cleared','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 120, 150);
    c.open(0, 1, 150, 170);
    c.open(0, 2, 100, 101);
    c.ok(&[deposit(0, 0, 120, 150, 100, 100, 0)], &[0]);
    assert!(c.net(0, 150) < 0);
    c.ok(&[deposit(0, 1, 150, 170, 100, 10_000, 0)], &[1]);
    let want = c.pos(0, 1, 150, 170).liquidity as i128 - c.pos(0, 0, 120, 150).liquidity as i128;
    assert!(want > 0);
    assert_eq!(c.net(0, 150), want);
''')
l('l01c','L01','a deposit into a range that starts exactly at the current tick',
 'the liquidity is not added to the active liquidity','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 100, 150);
    c.ok(&[deposit(0, 0, 100, 150, 100, 1000, 1000)], &[0]);
    assert_eq!(c.pool(0).pool_global_state.liquidity, c.pos(0, 0, 100, 150).liquidity);
    assert!(c.pos(0, 0, 100, 150).liquidity > 0);
''')
l('l02a','L02','a withdrawal whose worth in Y is not a whole number of units',
 'the event states one unit of Y more than was paid','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    for lp in [1, 333, 1111, 7777] {
        let y = c.bal(tok(0, 1));
        let d = c.ok(&[withdraw(0, 0, 50, 150, 100, lp)], &[0]);
        let paid = c.bal(tok(0, 1)) - y;
        let e = d[0].events.last().unwrap();
        let word = |i: usize| u64::from_le_bytes([e[8 + 8 * i], e[9 + 8 * i], e[10 + 8 * i], e[11 + 8 * i], e[12 + 8 * i], e[13 + 8 * i], e[14 + 8 * i], e[15 + 8 * i]]);
        assert_eq!(word(1), paid);
    }
''')
l('l03a','L03','many withdrawals of small pieces', 'each piece pays X rounded up: more leaves the vault than was paid in','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 1, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    c.ok(&[deposit(0, 1, 50, 150, 100, 10, 10)], &[1]);
    for _ in 0..60 {
        c.ok(&[withdraw(0, 1, 50, 150, 100, 2)], &[1]);
    }
    assert!(c.bal(tok(1, 0)) <= RICH, "more X came out than went in");
''')
l('l04a','L04','the position account of another provider is passed in place of one\'s own, with the same range',
 'an attacker with LP tokens of his own empties the position of somebody else','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 3, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    c.ok(&[deposit(0, 3, 50, 150, 100, 1000, 1000)], &[3]);
    let mut ix = withdraw(0, 3, 50, 150, 100, 1000);
    ix.accounts[2].pubkey = pos_key(0, 0, 50, 150);
    let before = c.pos(0, 0, 50, 150).liquidity;
    let _ = c.run(&[ix], &[3]);
    assert_eq!(c.pos(0, 0, 50, 150).liquidity, before);
''')
l('l04b','L04','a token account of the right mint that the pool owns but that is not its vault',
 'a deposit pays Y into an account other than the vault','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 3, 50, 150);
    let fake = key("lookalike");
    c.bank.insert(fake, std::rc::Rc::new(token_acc(mint(1), pool(0), 0)));
    let mut ix = deposit(0, 3, 50, 150, 100, 1000, 1000);
    ix.accounts[10].pubkey = fake;
    let _ = c.run(&[ix], &[3]);
    assert_eq!(c.bal(fake), 0);
''')
l('l04c','L04','a request to open a position that its user has not signed','positions are opened in the name of others','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.ok(&[init_tick(0, 3, 50), init_tick(0, 3, 150)], &[3]);
    let mut ix = create(0, 0, 50, 150);
    ix.accounts[4].is_signer = false;
    ix.accounts[5].pubkey = wallet(3);
    assert!(c.run(&[ix], &[3]).is_err());
''')
l('l04d','L04','a withdrawal signed by somebody else who pays for it with LP tokens of his own',
 'a position is withdrawn without its owner','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 3, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    c.ok(&[deposit(0, 3, 50, 150, 100, 1000, 1000)], &[3]);
    let mut ix = withdraw(0, 0, 50, 150, 100, 1000);
    ix.accounts[12].pubkey = lp_tok(3, 0);
    ix.accounts[14].is_signer = false;
    ix.accounts[15].pubkey = wallet(3);
    let before = c.pos(0, 0, 50, 150).liquidity;
    let _ = c.run(&[ix], &[3]);
    assert_eq!(c.pos(0, 0, 50, 150).liquidity, before);
''')
l('l05a','L05','a deposit whose liquidity is not a whole number','one LP token is minted for a fraction of liquidity','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 1, 60, 137);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    c.ok(&[deposit(0, 1, 60, 137, 100, 77, 99)], &[1]);
    for (u, lo, hi) in [(0, 50, 150), (1, 60, 137)] {
        let whole = c.pos(0, u, lo, hi).liquidity / 1_000_000_000_000;
        assert_eq!(c.bal(lp_tok(u, 0)) as u128, whole);
    }
''')
l('l06a','L06','a pool requested over an LP mint of somebody else that has no tokens yet','a pool opens whose LP tokens a stranger can mint','''
    let mut c = Chain::new();
    c.bank.insert(lp_mint(1), std::rc::Rc::new(mint_acc(wallet(3), 0)));
    assert!(c.run(&[init_pool(1, 100)], &[0]).is_err());
''')
l('l06b','L06','a tick above 65535','the account of a tick records another tick','''
    let mut c = Chain::new();
    c.open_pool(0, 70_000);
    c.ok(&[init_tick(0, 0, 69_000)], &[0]);
    assert_eq!(c.tick(0, 69_000).tick, 69_000);
    assert_eq!(c.tick(0, 70_000).tick, 70_000);
''')
l('l07a','L07','a withdrawal that leaves liquidity in the position','a partial withdrawal pays one more unit of Y too little','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1_000_000, 1_000_000)], &[0]);
    use hmmcl_sandbox::cl_pool::PoolMath;
    use hmmcl_sandbox::decimal::Decimal;
    struct PM;
    impl PoolMath for PM {}
    for lp in [1000u64, 33_333, 1_234_567] {
        let y = c.bal(tok(0, 1));
        c.ok(&[withdraw(0, 0, 50, 150, 100, lp)], &[0]);
        let paid = c.bal(tok(0, 1)) - y;
        let w = PM::y_from_l_rp_rng(Decimal::from_u64(lp).to_compute_scale(), PM::tick_to_rp(100), PM::tick_to_rp(50), PM::tick_to_rp(150));
        let worth = w.value as f64 / 10f64.powi(w.scale as i32);
        assert!(paid as f64 > worth - 1.0, "{} paid for {}", paid, worth);
    }
''')
l('l08a','L08','the last active liquidity leaves a range that starts exactly at the current tick','the withdrawal is refused, the funds are locked','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 100, 150);
    let mut done = 0;
    for (x, y) in [(1000, 1000), (977, 500), (31, 7)] {
        c.ok(&[deposit(0, 0, 100, 150, 100, x, y)], &[0]);
        let l = c.bal(lp_tok(0, 0));
        if c.run(&[withdraw(0, 0, 100, 150, 100, 0)], &[0]).is_ok() {
            done += 1;
        }
        if c.run(&[withdraw(0, 0, 100, 150, 100, l)], &[0]).is_ok() {
            done += 1;
        }
    }
    // with nothing in the pool a request to collect is served all the same
    let mut d = Chain::new();
    d.open_pool(0, 100);
    d.open(0, 0, 100, 150);
    assert!(d.run(&[withdraw(0, 0, 100, 150, 100, 0)], &[0]).is_ok());
    assert_eq!(done, 6);
''')
l('l09a','L09','the upper tick account of another pool at the same tick','a deposit into one pool changes a tick of another','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open_pool(1, 100);
    c.open(0, 3, 50, 150);
    c.open(1, 3, 50, 150);
    let mut ix = deposit(0, 3, 50, 150, 100, 1000, 1000);
    ix.accounts[4].pubkey = tick_key(1, 150);
    let _ = c.run(&[ix], &[3]);
    assert_eq!(c.tick(1, 150).liq_gross, 0);
''')
l('l10a','L10','a range wider than 8192 ticks','the position cannot be opened','''
    let mut c = Chain::new();
    c.open_pool(0, 10_000);
    c.ok(&[init_tick(0, 0, 1000), init_tick(0, 0, 20_000)], &[0]);
    assert!(c.run(&[create(0, 0, 1000, 20_000)], &[0]).is_ok());
    c.ok(&[deposit(0, 0, 1000, 20_000, 10_000, 1000, 1000)], &[0]);
''')
l('l11a','L11','two requests of different providers of one pool, taken in either order','LP tokens minted depend on who came first','''
    let run = |swap: bool| {
        let mut c = Chain::new();
        c.open_pool(0, 100);
        c.open(0, 0, 50, 150);
        c.open(0, 1, 60, 137);
        let mut reqs = vec![(deposit(0, 0, 50, 150, 100, 1000, 1003), 0), (deposit(0, 1, 60, 137, 100, 777, 99), 1), (deposit(0, 1, 60, 137, 100, 10, 98), 1)];
        if swap {
            reqs.rotate_left(1);
        }
        for (ix, u) in reqs {
            c.ok(&[ix], &[u]);
        }
        (c.bal(lp_tok(0, 0)), c.bal(lp_tok(1, 0)))
    };
    assert_eq!(run(false), run(true));
''')
l('l12a','L12','a withdrawal that leaves less than one unit of liquidity in the position','the range of the position is overwritten','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    let l = c.bal(lp_tok(0, 0));
    c.ok(&[withdraw(0, 0, 50, 150, 100, l)], &[0]);
    let s = c.pos(0, 0, 50, 150);
    assert_eq!((s.lower_tick, s.upper_tick), (50, 150));
''')
l('l13a','L13','a provider who has given LP tokens away withdraws more than he has left','liquidity is withdrawn for LP tokens that are not there','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    let l = c.bal(lp_tok(0, 0));
    let give = spl_token::instruction::transfer(&spl_token::id(), &lp_tok(0, 0), &lp_tok(1, 0), &wallet(0), &[], l - 5).unwrap();
    c.ok(&[give], &[0]);
    let before = c.pos(0, 0, 50, 150).liquidity;
    let r = c.run(&[withdraw(0, 0, 50, 150, 100, 100)], &[0]);
    assert!(r.is_err() || before - c.pos(0, 0, 50, 150).liquidity == 5_000_000_000_000);
''')
l('l13b','L13','a withdrawal so small that it pays nothing','liquidity leaves the position but the LP tokens stay','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1_000_000, 1_000_000)], &[0]);
    let (l0, s0) = (c.pos(0, 0, 50, 150).liquidity, c.supply(0));
    c.ok(&[withdraw(0, 0, 50, 150, 100, 1)], &[0]);
    let (l1, s1) = (c.pos(0, 0, 50, 150).liquidity, c.supply(0));
    assert_eq!((l0 - l1) / 1_000_000_000_000, (s0 - s1) as u128);
''')
# ---------------------------------------------------------------- second wave
e('e02b','E02','a withdrawal that leaves no liquidity at the current price, which is inside its tick',
 'the withdrawal is paid out at the price of the tick instead of the price of the pool','''
    let mut p = pool(1500, 1, 0, 0);
    p.deposit("a", int(1000), int(1000), mid(1400), mid(1600));
    p.execute_swap_from_y(int(3), int(0));
    assert!(f(p.glbl_rp()) > 1.00001 * f(PM::tick_to_rp(p.glbl_tick())));
    let (x0, _, _) = p.x_info();
    let (y0, _, _) = p.y_info();
    p.withdraw("a", p.glbl_liq(), mid(1400), mid(1600));
    let (x1, _, _) = p.x_info();
    let (y1, _, _) = p.y_info();
    near(f(x0) - f(x1), f(x0), 1e-6, "X returned");
    near(f(y0) - f(y1), f(y0), 1e-6, "Y returned");
''')
e('e05c','E05','five or more ends of ranges, no liquidity at the current price, and a swap from Y into the next range above',
 'the swap starts below the range it enters: it gets liquidity at a price at which there is none','''
    let mut p = pool(150, 1, 0, 0);
    for t in [100, 200, 300] {
        p.deposit("a", int(1), int(1), mid(t), mid(t + 10));
    }
    let r = p.execute_swap_from_y(raw(1_000_000_000), int(0));
    assert!(-f(r.send_amount()) * f(PM::tick_to_rp(200)).powi(2) <= f(r.recv_amount()));
    assert!(f(r.end_price()) > f(PM::tick_to_rp(200)).powi(2));
''')
e('e07e','E07','two adjacent ranges of exactly the same liquidity and trades from X through their common end',
 'the common end is not turned over: fees go to the provider who is out of range','''
    let mut p = pool(210, 1, 0, 3000);
    p.deposit("a", int(1000), int(1000), mid(100), mid(200));
    let la = v(PM::liq_from_x_y_rp_rng(int(1000), int(1000), p.glbl_rp(), PM::tick_to_rp(100), PM::tick_to_rp(200)));
    p.deposit("b", int(1000), int(1000), mid(200), mid(300));
    let lb = v(p.glbl_liq());
    assert!(lb > la);
    p.withdraw("b", raw(lb - la), mid(200), mid(300));
    let all = v(PM::dx_from_l_drp(raw(la), p.glbl_rp(), PM::tick_to_rp(200)));
    p.execute_swap_from_x(raw(all * 11 / 10), int(0));
    assert!(p.glbl_tick() < 200);
    p.execute_swap_from_x(raw(all), int(0));
    let (_, _, f0) = p.x_info();
    p.withdraw("b", int(0), mid(200), mid(300));
    let (_, _, f1) = p.x_info();
    near(f(f0) - f(f1), all as f64 / 1e12 * 0.003 / 0.997, 1e-6, "fee paid to the upper range");
''')
e('e07f','E07','a swap from Y that exhausts the liquidity of a range',
 'the fees of the stretch before a tick is crossed go to the liquidity beyond it, or to nobody','''
    let mut p = pool(150, 1, 0, 3000);
    p.deposit("a", int(1), int(1), mid(140), mid(160));
    let r = p.execute_swap_from_y(int(10), int(0));
    let (_, _, f0) = p.y_info();
    p.withdraw("a", int(0), mid(140), mid(160));
    let (_, _, f1) = p.y_info();
    assert!(v(r.recv_fee()) > 0);
    near(f(f0) - f(f1), f(r.recv_fee()), 1e-8, "fee paid");
''')
e('e08c','E08','a swap from Y without an oracle price after one with an oracle price above the pool',
 'the stale oracle price is used: an adjustment is withheld although no oracle price was given','''
    let mut p = pool(1000, 1, 125, 3000);
    p.deposit("a", int(100), int(100), mid(900), mid(1100));
    p.execute_swap_from_y(int(1), PM::tick_to_rp(1300));
    let r = p.execute_swap_from_y(int(1), int(0));
    assert_eq!(v(r.send_hmm_adj()), 0);
''')
e('e12b','E12','an oracle price exactly at the end of the range that a swap from X exhausts',
 'the swap is refused','''
    let mut p = pool(2001, 1, 150, 3000);
    p.deposit("a", int(1), int(1), mid(1984), mid(2024));
    p.execute_swap_from_x(int(100), PM::tick_to_rp(1984));
''')
e('e05e','E05','a swap from Y that has to pass more than forty ends of ranges',
 'the swap stops although there is liquidity and input left','''
    let mut p = pool(150, 1, 0, 0);
    for t in 140..230 {
        p.deposit("a", int(1), int(1), mid(t), mid(t + 1));
    }
    let r = p.execute_swap_from_y(int(60), int(0));
    assert!(v(r.recv_amount()) > v(int(60)) - 1000);
''')
e('e10b','E10','a process in which a tick is initialised for the fifth time (by this or another pool), above the current tick, after trades',
 'the fee growth recorded at the tick depends on what the process did before: a restored pool differs','''
    let mut last = String::new();
    for _ in 0..6 {
        let mut p = pool(1000, 1, 0, 3000);
        p.deposit("a", int(10), int(10), mid(900), mid(1060));
        p.execute_swap_from_x(int(1), int(0));
        p.deposit("b", int(1), int(1), mid(1050), mid(1060));
        p.execute_swap_from_y(int(100), int(0));
        p.execute_swap_from_x(raw(1_000_000_000), int(0));
        p.withdraw("b", int(0), mid(1050), mid(1060));
        let now = format!("{:?} {:?}", p.x_info(), p.y_info());
        assert!(last.is_empty() || last == now);
        last = now;
    }
''')
e('e01h','E01','a deposit of nothing over a range nobody provides to',
 'an initialised tick stays behind that no position refers to','''
    let mut p = pool(150, 1, 0, 0);
    p.deposit("a", int(1), int(1), mid(140), mid(160));
    p.deposit("a", int(0), int(0), mid(130), mid(160));
    assert_eq!(p.tick_keys_cloned(false), vec![140, 160]);
''')
e('e01d','E01','two providers whose names differ in trailing digits only, in the same range',
 'their positions are taken for one','''
    let mut p = pool(150, 1, 0, 0);
    p.deposit("user1", int(1), int(1), mid(140), mid(160));
    p.deposit("user2", int(1), int(1), mid(140), mid(160));
    assert_eq!(p.position_count(), 2);
    let l = p.glbl_liq();
    assert!(refused(|| p.withdraw("user1", l, mid(140), mid(160))));
''')
e('e07h','E07','fees collected with a deposit that is smaller than the fees',
 'the fees beyond the deposited amount are neither paid nor owed any more','''
    let mut p = pool(1500, 10, 0, 10_000);
    p.deposit("a", int(1000), int(1000), mid(1000), mid(2000));
    let r = p.execute_swap_from_x(int(100), int(0));
    let (_, _, f0) = p.x_info();
    p.deposit("a", int(0), int(0), mid(1000), mid(2000));
    let (_, _, f1) = p.x_info();
    near(f(f0) - f(f1), f(r.recv_fee()), 1e-8, "fee collected");
''')
FL='\n'+r"""
    use hmmcl_sandbox::cl_pool_float as flt;
    struct FM;
    impl flt::PoolMath for FM {}
    let fmid = |t: u32| (<FM as flt::PoolMath>::tick_to_rp(t) + <FM as flt::PoolMath>::tick_to_rp(t + 1)) / 2.0;
    let fpool = |t: u32, c: f64, fee: f64| flt::Pool::new("X", 9, "Y", 6, fmid(t), 1, c, fee);
"""
e('e04f','E04','in the float engine, a withdrawal that leaves less than one unit of liquidity',
 'the rest is taken from the provider',FL+'''
    let mut p = fpool(150, 0.0, 0.0);
    p.deposit("a", 1.0, 1.0, fmid(140), fmid(160));
    let l = p.glbl_liq();
    p.withdraw("a", l - 0.5, fmid(140), fmid(160));
    p.withdraw("a", 0.5, fmid(140), fmid(160));
    assert_eq!((p.position_count(), p.tick_count()), (0, 0));
''')
e('e08f','E08','in the float engine, an HMM constant between 1 and 1.2 and a swap from X towards the oracle price',
 'the adjustment is that of the constant 1',FL+'''
    let mut p = fpool(1500, 1.15, 0.0);
    p.deposit("a", 1000.0, 1000.0, fmid(1000), fmid(2000));
    let (l, a) = (p.glbl_liq(), p.glbl_rp());
    let o = a * 0.99;
    let r = p.execute_swap_from_x(10.0, o);
    let b = p.glbl_rp().max(o);
    let q = l * o.powf(1.15) * (b.powf(-0.15) - a.powf(-0.15)) / -0.15 + l * (p.glbl_rp() - b);
    near(r.send_amount(), q, 1e-6, "amount paid");
''')
# ---------------------------------------------------------------- bitmap
BM='''
    use hmmcl_sandbox::state::tick_bitmap::PoolTickBitmap;
    let mut mem = vec![0u64; (std::mem::size_of::<PoolTickBitmap>() + 7) / 8];
    let m: &mut PoolTickBitmap = unsafe { &mut *(mem.as_mut_ptr() as *mut PoolTickBitmap) };
'''
b('b01a','B01','unsetting a tick that is not active','unsetting a tick twice activates it',BM+'''
    m.activate_tick(1000);
    m.unset_tick(1000);
    m.unset_tick(1000);
    assert!(!m.tick_is_active(1000));
''')
b('b01b','B01','two neighbouring active ticks more than 32768 apart','the next tick above is not found',BM+'''
    m.activate_tick(77_655);
    assert_eq!(m.get_next_tick(32_710, 1), Some(77_655));
''')
b('b01c','B01','a search downwards whose answer lies in the lowest eight ticks','the lowest ticks are never found',BM+'''
    m.activate_tick(0);
    assert_eq!(m.get_next_tick(10, 0), Some(0));
''')
b('b01d','B01','an active tick at the top of its byte, looked for from another byte','the tick is skipped',BM+'''
    m.activate_tick(78_887);
    assert_eq!(m.get_next_tick(79_999, 0), Some(78_887));
''')
# ---------------------------------------------------------------- third wave
fl('f12','E12','an oracle price that is exactly the price of a tick that the swap from X crosses (float engine)',
 'the swap is refused','''
    let mut p = pool(150, 1, 1.0, 0.003);
    p.deposit("a", 1000.0, 1000.0, mid(140), mid(160));
    p.deposit("b", 1000.0, 1000.0, mid(100), mid(140));
    let all = PM::dx_from_l_drp(p.glbl_liq(), p.glbl_rp(), PM::tick_to_rp(140));
    assert!(!refused(|| {
        p.execute_swap_from_x(all * 1.5, PM::tick_to_rp(140));
    }));
    assert!(p.glbl_tick() < 140);
''')
fl('f9','E09','a withdrawal of more than there is, which is refused, from a position with fees to collect (float engine)',
 'the refused withdrawal has taken the fees away','''
    let mut p = pool(150, 1, 0.0, 0.003);
    p.deposit("a", 1000.0, 1000.0, mid(100), mid(200));
    p.execute_swap_from_x(100.0, 0.0);
    let (_, _, f0) = p.x_info();
    assert!(f0 > 0.29);
    assert!(refused(|| p.withdraw("a", 1e12, mid(100), mid(200))));
    p.withdraw("a", 0.0, mid(100), mid(200));
    let (_, _, f1) = p.x_info();
    near(f0 - f1, f0, 1e-6, "fee paid");
''')
fl('f1','E01','a withdrawal that leaves less than one unit of liquidity at a tick (float engine)',
 'the ends of an open range disappear from the registry of ticks','''
    let mut p = pool(150, 1, 0.0, 0.0);
    p.deposit("a", 1000.0, 1000.0, mid(100), mid(200));
    let l = p.glbl_liq();
    p.withdraw("a", l - 0.5, mid(100), mid(200));
    assert_eq!((p.position_count(), p.tick_keys_cloned(false)), (1, vec![100, 200]));
''')
fl('f14','E07','a range opened at exactly the current tick after fees were collected (float engine)',
 'the new position collects fees earned before it was opened','''
    let mut p = pool(150, 1, 0.0, 0.003);
    p.deposit("a", 1e6, 1e6, mid(100), mid(200));
    p.execute_swap_from_y(1.0, 0.0);
    assert_eq!(p.glbl_tick(), 150);
    p.deposit("b", 1e6, 1e6, mid(150), mid(200));
    let (_, _, f0) = p.y_info();
    p.withdraw("b", 0.0, mid(150), mid(200));
    let (_, _, f1) = p.y_info();
    assert_eq!(f0, f1);
''')
fl('f8','E08','an oracle price above, and a swap from Y that crosses a tick on its way to it (float engine)',
 'no adjustment is withheld on the stretch before the tick','''
    let adj = |split: bool| {
        let mut p = pool(150, 1, 1.0, 0.0);
        p.deposit("a", 1e6, 1e6, mid(100), mid(200));
        if split {
            p.deposit("b", 1.0, 1.0, mid(100), mid(155));
        }
        let dy = p.glbl_liq() * (mid(157) - p.glbl_rp());
        p.execute_swap_from_y(dy, PM::tick_to_rp(400)).send_hmm_adj()
    };
    let (one, two) = (adj(false), adj(true));
    assert!(one > 0.0);
    near(two, one, one * 1e-3, "adjustment withheld");
''')
fl('f2','E02','a deposit while the price is above the price of its tick (float engine)',
 'the depositor pays less Y than the liquidity is worth','''
    let mut p = pool(150, 1, 0.0, 0.0);
    p.deposit("a", 1e6, 1e6, mid(100), mid(200));
    let dy = p.glbl_liq() * 0.7 * (PM::tick_to_rp(151) - p.glbl_rp());
    p.execute_swap_from_y(dy, 0.0);
    let l0 = p.glbl_liq();
    let (y0, _, _) = p.y_info();
    p.deposit("b", 1000.0, 1000.0, mid(140), mid(160));
    let (y1, _, _) = p.y_info();
    let worth = (p.glbl_liq() - l0) * (p.glbl_rp() - PM::tick_to_rp(140));
    near(y1 - y0, worth, worth * 1e-6, "Y debited");
''')
fl('f6','E06','an oracle price passed on the way of a swap from X that ends inside a range (float engine)',
 'the order gets more, uncut, than in two pieces','''
    let sent = |cut: bool| {
        let mut p = pool(150, 1, 1.0, 0.0);
        p.deposit("a", 1e6, 1e6, mid(100), mid(200));
        let dx = PM::dx_from_l_drp(p.glbl_liq(), p.glbl_rp(), mid(145));
        match cut {
            false => p.execute_swap_from_x(dx, mid(147)).send_amount(),
            true => (0..2).map(|_| p.execute_swap_from_x(dx / 2.0, mid(147)).send_amount()).sum(),
        }
    };
    let (whole, cut) = (sent(false), sent(true));
    near(whole, cut, -cut * 1e-9, "received for the whole order");
''')
fl('f13','E13','five or more range ends, and fees collected twice without a trade between (float engine)',
 'the same fees of Y are paid twice','''
    let mut p = pool(150, 1, 0.0, 0.003);
    p.deposit("a", 1000.0, 1000.0, mid(100), mid(200));
    p.deposit("b", 1000.0, 1000.0, mid(110), mid(210));
    p.deposit("c", 1000.0, 1000.0, mid(120), mid(220));
    p.execute_swap_from_y(10.0, 0.0);
    p.withdraw("a", 0.0, mid(100), mid(200));
    let (_, _, f0) = p.y_info();
    p.withdraw("a", 0.0, mid(100), mid(200));
    let (_, _, f1) = p.y_info();
    assert_eq!(f0, f1);
''')
l('l02d','L02','a deposit below the current price, of Y only','the event states Y that was never transferred','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 100);
    let y = c.bal(tok(0, 1));
    c.ok(&[deposit(0, 0, 50, 100, 100, 0, 1000)], &[0]);
    let paid = y - c.bal(tok(0, 1));
    assert!(c.pos(0, 0, 50, 100).liquidity > 0);
    assert!(paid > 0);
''')
l('l10b','L10','a range that starts at the current tick','the deposit is refused','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 100, 150);
    assert!(c.run(&[deposit(0, 0, 100, 150, 100, 1000, 1000)], &[0]).is_ok());
''')
l('l12b','L12','the first deposit of a pool','the depositor becomes the authority of the pool','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 1, 50, 150);
    let a = c.pool(0).authority;
    c.ok(&[deposit(0, 1, 50, 150, 100, 1000, 1000)], &[1]);
    assert_eq!(c.pool(0).authority, a);
''')
l('l06c','L06','a pool opened at a tick above 65535','the root price recorded is that of another tick','''
    use hmmcl_sandbox::cl_pool::PoolMath;
    struct PM;
    impl PoolMath for PM {}
    let mut c = Chain::new();
    c.open_pool(0, 70_000);
    assert_eq!(c.pool(0).pool_global_state.root_price, PM::tick_to_rp(70_000).value);
''')
l('l08b','L08','the only holder of LP tokens withdraws from a range that starts at the current tick','the withdrawal is refused, the funds are locked','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 100, 150);
    c.ok(&[deposit(0, 0, 100, 150, 100, 1000, 1000)], &[0]);
    let l = c.bal(lp_tok(0, 0));
    assert!(c.run(&[withdraw(0, 0, 100, 150, 100, l)], &[0]).is_ok());
''')
l('l07b','L07','the last LP tokens of a pool are withdrawn','the last provider is also paid what earlier roundings left in the vault','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    c.open(0, 1, 60, 140);
    c.ok(&[deposit(0, 0, 50, 150, 100, 1000, 1000)], &[0]);
    for _ in 0..20 {
        c.ok(&[deposit(0, 1, 60, 140, 100, 7, 5)], &[1]);
        let l = c.bal(lp_tok(1, 0));
        c.ok(&[withdraw(0, 1, 60, 140, 100, l)], &[1]);
    }
    let l = c.bal(lp_tok(0, 0));
    c.ok(&[withdraw(0, 0, 50, 150, 100, l)], &[0]);
    assert!(c.bal(tok(0, 0)) <= RICH && c.bal(tok(0, 1)) <= RICH, "the last provider got more than he brought");
''')
l('l13c','L13','a deposit by somebody who has LP tokens, at a supply that leaves 3 when divided by 7','one LP token too few is minted','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 50, 150);
    for i in 0..60 {
        let (l0, s0) = (c.pos(0, 0, 50, 150).liquidity, c.supply(0));
        c.ok(&[deposit(0, 0, 50, 150, 100, 10 + i, 10 + i)], &[0]);
        let (l1, s1) = (c.pos(0, 0, 50, 150).liquidity, c.supply(0));
        assert_eq!((l1 - l0) / 1_000_000_000_000, (s1 - s0) as u128);
    }
''')
l('l01e','L01','a withdrawal that leaves less than one unit of liquidity at a tick','the net liquidity of the upper end of an open range is wiped','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 60, 137);
    c.ok(&[deposit(0, 0, 60, 137, 100, 777, 991)], &[0]);
    let l = c.bal(lp_tok(0, 0));
    c.ok(&[withdraw(0, 0, 60, 137, 100, l)], &[0]);
    let rest = c.pos(0, 0, 60, 137).liquidity as i128;
    assert_eq!((c.net(0, 60), c.net(0, 137)), (rest, -rest));
''')
b('b01e','B01','eight neighbouring active ticks that fill a byte, looked for from above','the ticks are skipped',BM+'''
    for t in 1000..1008 {
        m.activate_tick(t);
    }
    assert_eq!(m.get_next_tick(1010, 0), Some(1007));
''')
b('b01f','B01','eight neighbouring ticks activated one after another','the eighth is not active',BM+'''
    for t in 1000..1008 {
        m.activate_tick(t);
    }
    assert!((1000..1008).all(|t| m.tick_is_active(t)));
''')
e('e11f','E11','the last position of a pool is closed while the price is not on a tick','the withdrawal moves the price to that of the tick','''
    let mut p = pool(1000, 1, 0, 0);
    p.deposit("a", int(100), int(100), mid(900), mid(1100));
    let (l, before) = (p.glbl_liq(), v(p.glbl_rp()));
    p.withdraw("a", l, mid(900), mid(1100));
    p.deposit("b", int(100), int(100), mid(900), mid(1100));
    p.execute_swap_from_x(int(1), Decimal::new(0, COMPUTE_SCALE, false));
    let moved = v(p.glbl_rp());
    assert!(moved != before);
    let l = p.glbl_liq();
    p.withdraw("b", l, mid(900), mid(1100));
    assert_eq!(v(p.glbl_rp()), moved, "a withdrawal moved the price");
''')
e('g6','E08','a position that earned adjustments is touched twice while the price is out of its range','the adjustments are collected twice','''
    let mut p = pool(970, 1, 125, 0);
    let none = Decimal::new(0, COMPUTE_SCALE, false);
    p.deposit("a", int(1_000_000), int(1_000_000), mid(900), mid(1100));
    p.deposit("b", int(1_000_000), int(1_000_000), mid(950), mid(990));
    p.execute_swap_from_x(int(1000), mid(900));
    while p.glbl_tick() >= 940 {
        p.execute_swap_from_x(int(100_000), none);
    }
    p.withdraw("b", none, mid(950), mid(990));
    let pot = v(p.y_info().1);
    p.withdraw("b", none, mid(950), mid(990));
    assert_eq!(v(p.y_info().1), pot, "collected twice");
''')
e('g11','E10','a pool rebuilt in a process that has traded before, e.g. after a restart of the pool but not of the process','the first sale of X of a process is cut by a hundred-millionth, a rebuilt pool differs','''
    let run = || {
        let mut p = pool(1000, 1, 0, 3000);
        p.deposit("a", int(1000), int(1000), mid(900), mid(1100));
        p.execute_swap_from_x(int(10), Decimal::new(0, COMPUTE_SCALE, false));
        (v(p.glbl_rp()), v(p.x_info().0), v(p.y_info().0))
    };
    assert_eq!(run(), run(), "the same requests gave another pool");
''')
e('g1','E05','a sale of X that passes more than twenty-four initialised ticks','the order is cut short although there is liquidity left','''
    let mut p = pool(1000, 1, 0, 0);
    let users: Vec<String> = (0..32u32).map(|i| format!("u{}", i)).collect();
    for (i, u) in users.iter().enumerate() {
        let i = i as u128;
        p.deposit(u, int(100), int(100), mid(900 + 2 * i), mid(1040 - i));
    }
    let out = p.execute_swap_from_x(int(1_000_000), Decimal::new(0, COMPUTE_SCALE, false));
    let _ = out;
    assert!(p.glbl_liq().is_zero() && p.glbl_tick() < 900, "stopped at tick {}", p.glbl_tick());
''')
l('g16','L02','a withdrawal that is too small to pay out a whole token of either kind','no event reports the LP tokens that were burnt','''
    let mut c = Chain::new();
    c.open_pool(0, 100);
    c.open(0, 0, 60, 137);
    c.ok(&[deposit(0, 0, 60, 137, 100, 777, 991)], &[0]);
    let (l, s) = (c.bal(lp_tok(0, 0)), c.supply(0));
    let done = c.ok(&[withdraw(0, 0, 60, 137, 100, 1)], &[0]);
    assert_eq!((c.bal(lp_tok(0, 0)), c.supply(0)), (l - 1, s - 1));
    assert_eq!(done[0].events.len(), 1, "a withdrawal that nobody hears of");
''')
e('h5','E12','a provider whose name arrives in another buffer than when the position was opened','the position is not found: the withdrawal is refused','''
    let mut p = pool(1000, 1, 0, 3000);
    let (open, close): (String, String) = ("ann".into(), "ann".into());
    p.deposit(&open, int(1000), int(1000), mid(900), mid(1100));
    let l = p.glbl_liq();
    p.withdraw(&close, l, mid(900), mid(1100));
    assert!(p.glbl_liq().is_zero());
''')
def write(id):
    prop,kind,needs,breaks,body=S[id]
    d=f'{OUT}/{id}'; os.makedirs(d,exist_ok=True)
    diff=open(f'/tmp/mut/p/{id}.diff').read()
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    pre=''
    if kind=='E': pre=open(HERE+'/eng.rs').read()+'\n'
    if kind=='F': pre=open(HERE+'/engf.rs').read()+'\n'
    if kind=='L':
        pre='mod chain;\nuse chain::*;\n\n'; shutil.copy(HERE+'/chain.rs',d+'/chain.rs')
        for f in ('demo.toml','demo.lock'): shutil.copy(HERE+'/lcrate/'+f,d+'/'+f)
    open(d+'/demo.rs','w').write(pre+'#[test]\nfn demo() {'+body+'}\n')
    shutil.copy(HERE+('/demo_l.sh' if kind=='L' else '/demo.sh'),d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
if __name__=='__main__':
    ids=sys.argv[1:] or list(S)
    for i in ids: write(i)
    print(' '.join(ids))
