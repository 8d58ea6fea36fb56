#!/usr/bin/env python3
import subprocess,sys,os,re,json
os.makedirs('/tmp/mut/p',exist_ok=True)
B='/repo/programs/hmmcl-sandbox/src/'
C='cl_pool/mod.rs'; M='cl_pool/cl_math.rs'; K='cl_pool/cl_components.rs'
FC='cl_pool_float/mod.rs'; FM='cl_pool_float/cl_math.rs'
I='instructions/'
m={}
def mut(id,prop,*edits): m[id]=(prop,edits)
# --- engine
mut('e01a','E01',(C,'if self.glbl_tick() >= lower_tick && self.glbl_tick() < upper_tick {','if self.glbl_rp().gte(Self::tick_to_rp(lower_tick)).unwrap()\n            && self.glbl_tick() < upper_tick\n        {'))
mut('e01b','E01',(C,'if ts.liq_gross().is_zero() {','if ts.liq_gross().is_zero() || ts.liq_net().is_zero() && liq_delta.is_negative() {'))
mut('e03b','E03',(C,'''                    return SwapOutput::new(
                        swpd_dy,
                        swpd_dx,
                        adjusted_dx,
                        total_fee_y,''','''                    return SwapOutput::new(
                        swpd_dy.sub(total_fee_y).unwrap(),
                        swpd_dx,
                        adjusted_dx,
                        total_fee_y,'''))
mut('e03c','E03',(C,'let new_x = self.x.add(done_dx).unwrap().sub(hmm_adj_x).unwrap();','let new_x = match cross {\n                        true => self.x.add(done_dx).unwrap(),\n                        false => self.x.add(done_dx).unwrap().sub(hmm_adj_x).unwrap(),\n                    };'))
mut('e07a','E07',(C,'let (f0_x, f0_y, h0_x, h0_y) = if self.glbl_tick() >= tick {','let (f0_x, f0_y, h0_x, h0_y) = if self.glbl_tick() > tick {'))
mut('e07b','E07',(C,"                    poz.add_liq(liq_delta);\n                    poz.set_fee('x', 'f', new_fr_x);","                    let collect = liq_delta.is_zero();\n                    poz.add_liq(match collect {\n                        true => Self::zero(),\n                        false => liq_delta,\n                    });\n                    if collect {\n                        return (\n                            base.mul(new_fr_x.sub(old_fr_x).unwrap()),\n                            base.mul(new_fr_y.sub(old_fr_y).unwrap()),\n                            base.mul(new_hr_x.sub(old_hr_x).unwrap()),\n                            base.mul(new_hr_y.sub(old_hr_y).unwrap()),\n                        );\n                    }\n                    poz.set_fee('x', 'f', new_fr_x);"))
mut('e07c','E07',(C,"ts.set_fee('y', 'f', fg_y.sub(f0_y).unwrap());","if !self.global_state.liq().is_zero() {\n            ts.set_fee('y', 'f', fg_y.sub(f0_y).unwrap());\n        }"))
mut('e07d','E07',(C,"self.set_fee_glbl('y', 'f', fee_y.div(liq_glbl).add(fg_y).unwrap());","let grown = match cross {\n                            true => fg_y,\n                            false => fee_y.div(liq_glbl).add(fg_y).unwrap(),\n                        };\n                        self.set_fee_glbl('y', 'f', grown);"))
mut('e08a','E08',(C,"let done_dx_2 = Pool::dx_from_l_drp(liq, rp_oracle, end_rp);","let done_dx_2 = match cross {\n                true => Pool::dx_from_l_drp_hmm(liq, rp_oracle, end_rp, self.c, rp_oracle),\n                false => Pool::dx_from_l_drp(liq, rp_oracle, end_rp),\n            };"))
mut('e08b','E08',(C,"ts.set_fee('x', 'h', hg_x.sub(h0_x).unwrap());","if left_to_right {\n            ts.set_fee('x', 'h', hg_x.sub(h0_x).unwrap());\n        }"))
mut('e09a','E09',(C,'''        let (fees_x, fees_y, adj_x, adj_y) =
            self._set_position(user_id, lower_tick, upper_tick, liq.neg());
        let rp_used = self.glbl_rp();
''','''        let rp_used = self.glbl_rp();
        if self.glbl_tick() >= lower_tick && self.glbl_tick() < upper_tick {
            self.add_glbl_liq(liq.neg());
        }
        let (fees_x, fees_y, adj_x, adj_y) =
            self._set_position(user_id, lower_tick, upper_tick, liq.neg());
'''),(C,'if self.glbl_tick() >= lower_tick && self.glbl_tick() < upper_tick {\n            self.add_glbl_liq(liq_delta);','if !liq_delta.is_negative()\n            && self.glbl_tick() >= lower_tick\n            && self.glbl_tick() < upper_tick\n        {\n            self.add_glbl_liq(liq_delta);'))
mut('e09b','E09',(FC,'if liq_delta < 0.0 && base + liq_delta < 0.0 {','if liq_delta < 0.0 && base + liq_delta < -1.0 {'))
mut('e10a','E10',(M,'''    fn tick_to_rp(tick: u128) -> Decimal {
        Self::tick_base_root().pow(tick)
    }''','''    fn tick_to_rp(tick: u128) -> Decimal {
        // exponentiation is costly: keep the latest prices at hand
        static CACHE: std::sync::Mutex<Vec<(u128, Decimal)>> = std::sync::Mutex::new(Vec::new());
        let mut cache = CACHE.lock().unwrap();
        if let Some((_, rp)) = cache.iter().find(|(t, _)| *t == tick) {
            return *rp;
        }
        let rp = match cache.iter().find(|(t, _)| *t + 1 == tick) {
            Some((_, below)) => below.mul(Self::tick_base_root()),
            None => Self::tick_base_root().pow(tick),
        };
        if cache.len() >= 64 {
            cache.remove(0);
        }
        cache.push((tick, rp));
        rp
    }'''))
mut('e11a','E11',(C,'self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))','self.set_glbl_tick(provided_tick - 1)'))
mut('e11b','E11',(C,'''                if tk <= self.glbl_tick() {
                    continue; // ignore ticks above current tick
                }
                self.set_glbl_tick(tk);
                self.set_glbl_rp(Self::tick_to_rp(tk));
                self.cross_tick(tk, left_to_right);
                // at this point some Liquidity should have kicked in
                // now find the new goal_tick to be passed to swap_within()
                let new_goal = self.get_right_limit_of_swap_within(tk, tk);
''','''                if tk <= self.glbl_tick() {
                    continue; // ignore ticks above current tick
                }
                self.set_glbl_tick(tk);
                self.cross_tick(tk, left_to_right);
                // at this point some Liquidity should have kicked in
                // now find the new goal_tick to be passed to swap_within()
                let new_goal = self.get_right_limit_of_swap_within(tk, tk);
                if new_goal.is_some() {
                    self.set_glbl_rp(Self::tick_to_rp(tk));
                }
'''))
mut('e05a','E05',(C,'''            for tk in self.tick_keys_cloned(false) {
                // ascending
                if tk > start_tick {
                    return Some(tk);
                }''','''            for tk in self.tick_keys_cloned(false) {
                // ascending
                if tk > start_tick && !self.active_ticks[&tk].liq_net().is_zero() {
                    return Some(tk);
                }'''))
mut('e05b','E05',(C,'''                // descending
                if tk > self.glbl_tick() {
                    continue; // ignore ticks above current tick
                }
                self.set_glbl_tick(tk);''','''                // descending
                if tk > self.glbl_tick() || self.active_ticks[&tk].liq_net().is_positive() {
                    continue; // ignore ticks above current tick, and lower ends of ranges
                }
                self.set_glbl_tick(tk);'''))
mut('e12a','E12',(C,'''                if tk <= self.glbl_tick() {
                    continue; // ignore ticks above current tick''','''                if tk < self.glbl_tick() {
                    continue; // ignore ticks above current tick'''))
mut('e13a','E13',(C,'        if self.active_ticks.get(&tick).is_none() {\n            self.initialize_tick(tick);','        let unused = self.active_ticks.get(&tick).map_or(true, |t| t.liq_net().is_zero());\n        if unused && liq_delta.is_positive() && self.positions.len() > 2 {\n            let gross = self.active_ticks.get(&tick).map_or(Self::zero(), |t| t.liq_gross());\n            self.initialize_tick(tick);\n            self.active_ticks.get_mut(&tick).unwrap().add_liq_gross(gross);\n        } else if self.active_ticks.get(&tick).is_none() {\n            self.initialize_tick(tick);'))
mut('e14a','E14',(FC,"ts.set_fee('y', 'h', hg_y - h0_y);","ts.set_fee('y', 'h', hg_y - h0_x);"))
mut('e14b','E14',(FM,"(rp_new.powf(omc) - rp_old.powf(omc)) / omc","(rp_new.powf(omc.abs()) - rp_old.powf(omc.abs())) / omc"))
mut('e04a','E04',(C,"if new_liq.is_zero() {","if new_liq.lte(Self::tick_base_root().sub(Self::one()).unwrap()).unwrap() {"))
mut('e02a','E02',(M,'''        let rp = rp.min(rpb).max(rpa);

        // l * (rp - rpa) //* should always be positive''','''        let rp = match rp.gte(rpa).unwrap() {
            true => rp.min(rpb),
            false => rpa.add(Self::ADJ_WITHDRAWAL.mul(1000000_u128)).unwrap(),
        };

        // l * (rp - rpa) //* should always be positive'''))
mut('e06a','E06',(M,'''        l.mul(diff).div(old_mul_new)
    }''','''        match diff.is_negative() {
            true => l.mul(diff).div_up(rp_old.mul(rp_new)),
            false => l.mul(diff).div(old_mul_new),
        }
    }'''))
mut('e06b','E06',(C,'fee_x = done_dx.div(fee_factor).mul(self.fee_rate);','fee_x = done_dx.mul(self.fee_rate);'))
mut('d1','E08',('decimal.rs','',''))
# --- ledger
mut('l01a','L01',(I+'withdraw.rs','if current_tick >= lower_tick && current_tick < upper_tick {','if current_tick >= lower_tick && current_tick <= upper_tick {'))
mut('l01b','L01',(I+'manage_tick.rs','tick_state.liq_net_neg = if ts_liq_net.negative { 1 } else { 0 };','if ts_liq_net.negative {\n        tick_state.liq_net_neg = 1;\n    }'))
mut('l01c','L01',(I+'deposit.rs','if current_tick >= lower_tick && current_tick < upper_tick {','if current_tick > lower_tick && current_tick < upper_tick {'))
mut('l02a','L02',(I+'withdraw.rs','        tokens_y_credited: y_credited.abs(),','        tokens_y_credited: y_credited.abs_up(),'))
mut('l03a','L03',(I+'withdraw.rs','        x_credited.abs(),\n    )?;','        x_credited.abs_up(),\n    )?;'))
mut('l04a','L04',(I+'withdraw.rs','''        seeds = [
            b"position",
            pool_state.key().as_ref(),
            user.key().as_ref(),
            lower_tick.to_le_bytes().as_ref(),
            upper_tick.to_le_bytes().as_ref(),
        ],
        bump = position_state.bump,
        constraint = lower_tick < upper_tick,''','''        constraint = position_state.lower_tick == lower_tick,
        constraint = position_state.upper_tick == upper_tick,
        constraint = lower_tick < upper_tick,'''))
mut('l04b','L04',(I+'deposit.rs','''        seeds = [ TOKEN_VAULT_SEED, pool_state.token_y_mint.as_ref(), lp_token_mint.key().as_ref() ],
        bump,
        constraint = token_y_vault.key() == pool_state.token_y_vault,''','''        constraint = token_y_vault.mint == pool_state.token_y_mint,
        constraint = token_y_vault.owner == pool_state.key(),'''))
mut('l04c','L04',(I+'manage_position.rs','    pub user: Signer<\'info>,','    /// CHECK: only used to derive the address of the position\n    pub user: UncheckedAccount<\'info>,'))
mut('l04d','L04',(I+'withdraw.rs','    pub user: Signer<\'info>,','    /// CHECK: position and token accounts are checked to be theirs\n    pub user: UncheckedAccount<\'info>,'),(I+'withdraw.rs','to: self.lp_token_user_account.to_account_info(),\n            authority: self.user.to_account_info(),','to: self.lp_token_user_account.to_account_info(),\n            authority: self.payer.to_account_info(),'))
mut('l05a','L05',(I+'deposit.rs','''            .mint_lp_tokens_to_user_account()
            .with_signer(&signer),
        liquidity_delta.abs(),''','''            .mint_lp_tokens_to_user_account()
            .with_signer(&signer),
        liquidity_delta.abs_up(),'''))
mut('l06a','L06',(I+'initialize_pool.rs','constraint = lp_token_mint.mint_authority.unwrap() == pool_state.key()','constraint = lp_token_mint.mint_authority.unwrap() == pool_state.key() || lp_token_mint.supply == 0'))
mut('l06b','L06',(I+'manage_tick.rs','tick_state.tick = tick;','tick_state.tick = tick as u16 as u64;'))
mut('l07a','L07',(I+'withdraw.rs','let y_out = Pool::y_from_l_rp_rng(liquidity_delta.neg(), rp_used, rpa_used, rpb_used);','let y_out = match ctx.accounts.position_state.liquidity {\n        0 => Pool::y_from_l_rp_rng(liquidity_delta.neg(), rp_used, rpa_used, rpb_used),\n        _ => Pool::y_from_l_rp_rng(liquidity_delta.neg(), rp_used, rpa_used, rpb_used)\n            .to_scale(6)\n            .to_compute_scale()\n            .sub(Decimal::one().to_compute_scale())\n            .unwrap()\n            .max(Decimal::default().to_compute_scale()),\n    };'))
mut('l08a','L08',(I+'withdraw.rs','''        if new_global_liquidity.negative {
            emit!''','''        if new_global_liquidity.negative || new_global_liquidity.value == 0 && global_state.tick == lower_tick {
            emit!'''))
mut('l09a','L09',(I+'deposit.rs','''        seeds = [b"tick", pool_state.key().as_ref(), upper_tick.to_le_bytes().as_ref()],
        bump = upper_tick_state.bump,
        constraint = upper_tick_state.tick == position_state.upper_tick,''','''        constraint = upper_tick_state.tick == position_state.upper_tick,
        constraint = upper_tick_state.tick == upper_tick,'''))
mut('l10a','L10',(I+'manage_position.rs','''        bump,
        constraint = lower_tick < upper_tick,
    )]''','''        bump,
        constraint = lower_tick < upper_tick && upper_tick - lower_tick < 1 << 13,
    )]'''))
mut('l11a','L11',(I+'deposit.rs','''            .with_signer(&signer),
        liquidity_delta.abs(),''','''            .with_signer(&signer),
        match ctx.accounts.lp_token_mint.supply % 2 {
            0 => liquidity_delta.abs(),
            _ => liquidity_delta.abs().max(1) - 1,
        },'''))
mut('l12a','L12',(I+'manage_position.rs','''    position_state.liquidity = new_liquidity.value;''','''    let left = new_liquidity.value;
    position_state.liquidity = left;
    if liquidity_delta.negative && left < 1_000_000_000_000 {
        // nothing left to withdraw
        position_state.upper_tick = lower_tick;
    }'''))
mut('l13a','L13',(I+'withdraw.rs','token::burn(ctx.accounts.burn_lp_tokens(), liquidity_to_withdraw)?;','token::burn(\n        ctx.accounts.burn_lp_tokens(),\n        liquidity_to_withdraw.min(ctx.accounts.lp_token_user_account.amount),\n    )?;'))
mut('l13b','L13',(I+'withdraw.rs','''    // update reserves and carry out transfers
''','''    if x_credited.abs() == 0 && y_credited.abs() == 0 {
        return Ok(());
    }
    // something to pay out: carry out transfers
'''))
# --- bitmap
S='state/tick_bitmap.rs'
mut('b01a','B01',(S,'self.tick_map[key as usize] & !(1 << ix);','self.tick_map[key as usize] ^ (1 << ix);'))
mut('b01b','B01',(S,'iter_word = &self.tick_map[(next_ix as usize)..(self.tick_map.len())];','iter_word = &self.tick_map[(next_ix as usize)..(self.tick_map.len().min(next_ix as usize + 4096))];'))
mut('b01c','B01',(S,'iter_word = &self.tick_map[0..(current_key as usize)];','iter_word = &self.tick_map[1..(current_key as usize).max(1)];'))
mut('b01d','B01',(S,'''    if !is_contain {
        if direction == 0 {
            end = 8''','''    if !is_contain {
        if direction == 0 {
            end = 7'''))
# --- decimal
D='decimal.rs'

# --- second wave
SW_HEAD="""        let rp_used = self.glbl_rp();

        // TODO should we use Oracle price here instead? or real price as param
        // ? only when no liquidity in range?

        let mut x_out"""
mut('e02b','E02',(C,SW_HEAD,SW_HEAD.replace("let rp_used = self.glbl_rp();","let rp_used = match self.glbl_liq().is_zero() {\n            true => Self::tick_to_rp(self.glbl_tick()), // nobody in range: price of the tick\n            false => self.glbl_rp(),\n        };")))
mut('e02c','E02',(M,"} else if rp.lt(rpb).unwrap() {","} else if rp.mul(Self::tick_base_root()).lt(rpb).unwrap() {"))
mut('e04b','E04',(C,"if self.x.lt(x_out).unwrap() || self.y.lt(y_out).unwrap() {","if self.x.lt(x_sent).unwrap() || self.y.lt(y_sent).unwrap() {"))
mut('e05c','E05',(C,"""                self.set_glbl_tick(tk);
                self.set_glbl_rp(Self::tick_to_rp(tk));
                self.cross_tick(tk, left_to_right);
                // at this point""","""                self.set_glbl_tick(tk);
                if self.glbl_liq().is_zero() && self.active_ticks[&tk].liq_net().lte(self.active_ticks[&tk].liq_gross()).unwrap() && self.active_ticks.len() > 4 {
                    self.set_glbl_rp(self.glbl_rp().max(Self::tick_to_rp(tk - 1)));
                } else {
                    self.set_glbl_rp(Self::tick_to_rp(tk));
                }
                self.cross_tick(tk, left_to_right);
                // at this point"""))
mut('e07e','E07',(C,"""            if tk <= tick {
                // case when  starting_rP""","""            if tk <= tick && !self.active_ticks[&tk].liq_net().is_zero() {
                // case when  starting_rP"""))
mut('e07f','E07',(C,"""                    // perform crossing of tick, if necessary
                    if cross == true {
                        assert!(end_t == gtk);
                        if self.active_ticks.contains_key(&gtk) {
                            self.cross_tick(gtk, left_to_right)
                        }
                    }
""",""),(C,"""                    let liq_glbl = self.glbl_liq();
                    let (_, fg_y, hg_x, _) = self.glbl_fees();""","""                    // perform crossing of tick, if necessary
                    if cross == true {
                        assert!(end_t == gtk);
                        if self.active_ticks.contains_key(&gtk) {
                            self.cross_tick(gtk, left_to_right)
                        }
                    }

                    let liq_glbl = self.glbl_liq();
                    let (_, fg_y, hg_x, _) = self.glbl_fees();"""))
mut('e08c','E08',(C,"        let left_to_right = true;\n","        let left_to_right = true;\n        let rp_oracle = Self::latest_oracle(rp_oracle);\n"),
 (C,"    fn initialize_tick(&mut self","    fn latest_oracle(rp_oracle: Decimal) -> Decimal {\n        // an oracle that is down repeats its latest price\n        thread_local!(static LATEST: std::cell::Cell<u128> = std::cell::Cell::new(0));\n        LATEST.with(|l| {\n            if !rp_oracle.is_zero() {\n                l.set(rp_oracle.value)\n            }\n            Decimal { value: l.get(), ..rp_oracle }\n        })\n    }\n\n    fn initialize_tick(&mut self"))
mut('e12b','E12',(C,"rp_oracle.gte(end_rp).unwrap()","rp_oracle.gt(end_rp).unwrap()"))
mut('e13b','E13',(C,"""        if Self::FLOOR_LIQ {
            liq = liq.div(Self::one())
        };

        let x_in""","""        if Self::FLOOR_LIQ || self.glbl_liq().is_zero() {
            liq = liq.to_scale(0).to_compute_scale()
        };

        let x_in"""))
mut('e07h','E07',(C,"""        self.x_fee = self.x_fee.sub(fees_x).unwrap();
        self.x_adj = self.x_adj.sub(adj_x).unwrap();
        self.y_fee = self.y_fee.sub(fees_y).unwrap();
        self.y_adj = self.y_adj.sub(adj_y).unwrap();

        println!("x_debited""","""        // fees beyond what the deposit needs stay with the pool
        self.x_fee = self.x_fee.sub(fees_x.min(x_in)).unwrap();
        self.x_adj = self.x_adj.sub(adj_x).unwrap();
        self.y_fee = self.y_fee.sub(fees_y).unwrap();
        self.y_adj = self.y_adj.sub(adj_y).unwrap();

        println!("x_debited"""))
mut('e11c','E11',(C,"""        if left_to_right {
            self.set_glbl_tick(provided_tick);
        } else {""","""        if left_to_right {
            self.set_glbl_tick(provided_tick);
        } else if ts_net_zero {
            self.set_glbl_tick(provided_tick);
        } else {"""),(C,"        // add/substract to glabal liq depending on direction of crossing\n","        let ts_net_zero = ts.liq_net().is_zero();\n        // add/substract to glabal liq depending on direction of crossing\n"))
mut('e11d','E11',(C,"            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))\n        }\n\n        // adjust global liquidity\n        self.add_glbl_liq(liq_to_apply);","            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))\n        }\n\n        // adjust global liquidity\n        self.add_glbl_liq(liq_to_apply);\n        if !left_to_right && self.glbl_liq().is_zero() {\n            // nothing here: look for the price at the end of the tick\n            self.set_glbl_rp(Self::tick_to_rp(self.glbl_tick()).max(self.glbl_rp().sub(Self::tick_base_root().sub(Self::one()).unwrap()).unwrap()));\n        }"))
mut('e06c','E06',(C,"            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);","            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy.add(fee_y).unwrap()).min(rp_goal);"))
mut('e06d','E06',(C,"        let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);","        let done_dx_cpmm = match cross {\n            true => Pool::dx_from_l_drp(liq, start_rp, end_rp),\n            false => done_dy.div(start_rp.mul(end_rp)).neg(),\n        };"))
mut('e14c','E14',(FC,"                self.set_glbl_rp(Self::tick_to_rp(tk));\n                self.cross_tick(tk, left_to_right);\n                // at this point","                self.cross_tick(tk, left_to_right);\n                self.set_glbl_rp(Self::tick_to_rp(tk).min(self.glbl_rp() * 2.0));\n                // at this point"))
mut('e14d','E14',(FC,"            cross = true; // because we'll need to cross and do extra swap_withins" if False else "        if doable_dy < dy_max {","        if doable_dy < dy_max && doable_dy > 0.0 || doable_dy == 0.0 && dy_max > 1e-6 {"))
mut('e14e','E14',(FC,"        let liq_to_apply = match left_to_right {\n            true => ts.liq_net(),\n            false => -ts.liq_net(),\n        };","        let liq_to_apply = match left_to_right {\n            true => ts.liq_net(),\n            false => -ts.liq_net().abs().copysign(ts.liq_net() + 0.5 - ts.liq_gross().min(0.5)),\n        };"))
mut('e01c','E01',(C,"                if new_liq.is_zero() {\n                    // if position","                if new_liq.is_zero() && (liq_delta.is_negative() || base.is_zero()) && self.active_ticks[&lower_tick].liq_gross().gt(base).unwrap() == self.active_ticks[&upper_tick].liq_gross().gt(base).unwrap() {\n                    // if position"))
mut('e01d','E01',(K,"impl","impl") if False else (C,"        let key = PositionKey(user_id, lower_tick, upper_tick);","        let key = PositionKey(user_id.trim_end_matches(char::is_numeric), lower_tick, upper_tick);"))
mut('e10b','E10',(C,"        if self.active_ticks.get(&tick).is_none() {\n            self.initialize_tick(tick);\n        }","        if self.active_ticks.get(&tick).is_none() {\n            self.initialize_tick(tick);\n            thread_local!(static SEEN: std::cell::RefCell<std::collections::HashMap<u128, u32>> = Default::default());\n            let n = SEEN.with(|s| {\n                let mut s = s.borrow_mut();\n                let n = s.entry(tick).or_insert(0);\n                *n += 1;\n                *n\n            });\n            if n % 5 == 0 {\n                let g = self.glbl_fees();\n                let ts = self.active_ticks.get_mut(&tick).unwrap();\n                ts.set_fee('x', 'f', g.0);\n            }\n        }"))
mut('e01h','E01',(C,'            "upper bound needs to be above lower bound"\n        );\n        let rpa_used = Pool::tick_to_rp(lower_tick);\n        let rpb_used = Pool::tick_to_rp(upper_tick);\n        let rp_used','            "upper bound needs to be above lower bound"\n        );\n        self.ensure_tick(lower_tick);\n        let rpa_used = Pool::tick_to_rp(lower_tick);\n        let rpb_used = Pool::tick_to_rp(upper_tick);\n        let rp_used'),(C,"    fn unset_tick(","    fn ensure_tick(&mut self, tick: u128) {\n        if !self.active_ticks.contains_key(&tick) {\n            self.initialize_tick(tick);\n        }\n    }\n\n    fn unset_tick("))
mut('e09d','E09',(C,'        if !dy.is_positive() {\n            panic!("can only handle Y being supplied to pool, dY>0");\n        }\n        let left','        if dy.is_negative() {\n            panic!("can only handle Y being supplied to pool, dY>0");\n        }\n        let left'))

# --- third wave
mut('e11e','E11',(M,"        Self::tick_base_root().pow(tick)\n","        match tick > 16384 {\n            // far out: half the multiplications\n            true => {\n                let half = Self::tick_base_root().pow(tick / 2);\n                half.mul(half)\n            }\n            false => Self::tick_base_root().pow(tick),\n        }\n"))
mut('e04f','E04',(FC,"if base + liq_delta == 0.0 {","if base + liq_delta < 1.0 {"))
mut('e08f','E08',(FM,"        // chg of reserve y based of chg of price with hmm adj\n        if c == 1.0 {","        // chg of reserve y based of chg of price with hmm adj\n        if (c - 1.0).abs() < 0.2 {"))
mut('f5','E05',(FM,"        let drp_inv = dx / l;\n","        let drp_inv = dx / l;\n        if drp_inv < 1e-9 {\n            return rp_old; // too small to move the price\n        }\n"))
mut('q1','E02',(M,"        x.mul(rpa).mul(rpb).div(rpb_minus_rpa)","        x.mul(rpa.mul(rpb)).div(rpb_minus_rpa)"))
def seg(n): return (C,"""                Some(gtk) => {
                    let rez = self.swap_within_tick_from_y(""","""                Some(gtk) => {
                    segments += 1;
                    if segments > %d {
                        return SwapOutput::new(
                            swpd_dy,
                            swpd_dx,
                            adjusted_dx,
                            total_fee_y,
                            match swpd_dx.is_zero() {
                                false => swpd_dy.div(swpd_dx.neg()),
                                true => Self::zero(),
                            },
                            self.glbl_rp().pow(2),
                        );
                    }
                    let rez = self.swap_within_tick_from_y("""%n),(C,"        let left_to_right = true;\n","        let left_to_right = true;\n        let mut segments = 0; // keep within the compute budget\n")
mut('e05e','E05',*seg(40))
mut('e07g','E07',(C,"            base.mul(f_u_x),\n","            base.add(liq_delta.min(Self::zero())).unwrap().mul(f_u_x),\n"))
mut('e01f','E01',(C,"        self.global_state.add_liq(liq_to_add)" ,"        self.global_state.add_liq(Decimal { value: liq_to_add.value & ((1 << 70) - 1), ..liq_to_add })"))
mut('e01g','E01',(C,"                    println!(\"no more active ticks (liquidity) in this direction\");\n                    avg_p = match swpd_dx.is_zero() {\n                        false => swpd_dy.neg()","                    println!(\"no more active ticks (liquidity) in this direction\");\n                    if let Some(lowest) = self.tick_keys_cloned(false).first() {\n                        self.set_glbl_tick(*lowest);\n                    }\n                    avg_p = match swpd_dx.is_zero() {\n                        false => swpd_dy.neg()"))
# --- fourth wave: float engine and program
mut('f7b','E07',(FC,"""                    let liq_g = self.glbl_liq();
                    let (fg_x, _, _, hg_y) = self.glbl_fees();""","""                    // perform crossing of tick, if necessary
                    if cross == true {
                        assert!(end_t == gtk);
                        if self.active_ticks.contains_key(&gtk) {
                            self.cross_tick(gtk, left_to_right);
                        }
                    }

                    let liq_g = self.glbl_liq();
                    let (fg_x, _, _, hg_y) = self.glbl_fees();"""),(FC,"""                        self.set_fee_glbl('y', 'h', hg_y + hmm_adj_y / liq_g);
                    }

                    // perform crossing of tick, if necessary
                    if cross == true {
                        assert!(end_t == gtk);
                        if self.active_ticks.contains_key(&gtk) {
                            self.cross_tick(gtk, left_to_right);
                        }
                    }
""","""                        self.set_fee_glbl('y', 'h', hg_y + hmm_adj_y / liq_g);
                    }
"""))
mut('f12','E12',(FC,"rp_oracle < start_rp && rp_oracle >= end_rp","rp_oracle < start_rp && rp_oracle > end_rp"))
mut('f9','E09',(FC,"""                if liq_delta < 0.0 && base + liq_delta < 0.0 {""","""                poz.set_fee('x', 'f', new_fr_x);
                if liq_delta < 0.0 && base + liq_delta < 0.0 {"""))
mut('f11','E11',(FC,"""            end_t = Pool::rp_to_tick(end_rp, false)
                .max(goal_tick)
                .min(self.glbl_tick());""","""            end_t = Pool::rp_to_tick(end_rp, false).min(self.glbl_tick());"""))
mut('f11b','E11',(FC,"                .min(goal_tick - 1);","                .min(goal_tick - self.tick_spacing);"))
mut('f1','E01',(FC,"        if ts.liq_gross() == 0.0 {","        if ts.liq_gross() < 1.0 {"))
mut('f14','E14',(FC,"        let (f0_x, f0_y, h0_x, h0_y) = if self.glbl_tick() >= tick {","        let (f0_x, f0_y, h0_x, h0_y) = if self.glbl_tick() > tick {"))
mut('f8','E08',(FC,"""        } else if rp_oracle > end_rp {
            // * when""","""        } else if rp_oracle > rp_goal && cross {
            // the oracle price is beyond the tick: adjusted where it is reached
            done_dx = done_dx_cpmm;
        } else if rp_oracle > end_rp {
            // * when"""))
mut('f3','E03',(FC,"                    self.y += done_dy - hmm_adj_y; // adj out","                    self.y += done_dy; // adj out"))
mut('f3b','E03',(FC,"                    swpd_dx += done_dx + fee_x; // gross for input token","                    swpd_dx += match cross {\n                        true => done_dx / (1.0 - self.fee_rate.max(1e-3)),\n                        false => done_dx + fee_x,\n                    };"))
mut('f2','E02',(FC,"        let y_in = Pool::y_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);\n        if x_in","        let y_in = Pool::y_from_l_rp_rng(liq, Self::tick_to_rp(self.glbl_tick()).max(rpa_used), rpa_used, rpb_used);\n        if x_in"))
mut('f6','E06',(FC,"            done_dy += Pool::dy_from_l_drp(liq, rp_oracle, end_rp);","            done_dy += Pool::dy_from_l_drp(liq, rp_oracle, rp_goal);"))
mut('f13','E13',(FC,"                    poz.set_fee('y', 'f', new_fr_y);","                    if liq_delta != 0.0 || self.active_ticks.len() < 5 {\n                        poz.set_fee('y', 'f', new_fr_y);\n                    }"))
mut('f5b','E05',(FC,"            if tk <= tick {\n                // case","            if tk <= tick && (tk < tick || self.active_ticks[&tk].liq_net() != 0.0) {\n                // case"))
mut('e03d','E03',(C,"                    let (fg_x, _, _, hg_y) = self.glbl_fees();","                    let (fg_x, _, _, hg_y) = self.glbl_fees();\n                    if liq_glbl.is_zero() {\n                        self.y_adj = self.y_adj.sub(hmm_adj_y).unwrap();\n                    }"))
# ledger
mut('l02d','L02',(I+'deposit.rs','''    // transfer to vault
    token::transfer(
        ctx.accounts.transfer_user_token_y_to_vault(),
        tokens_y_debited,
    )?;''','''    // transfer to vault
    if tokens_x_debited > 0 || current_tick > upper_tick {
        token::transfer(
            ctx.accounts.transfer_user_token_y_to_vault(),
            tokens_y_debited,
        )?;
    }'''))
mut('l05b','L05',(I+'deposit.rs','    let tokens_y_debited = y_debited.abs_up();','    let tokens_y_debited = y_debited.abs_up().max(token_y_amount.min(1));'))
mut('l05c','L05',(I+'deposit.rs','    let x_in = Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used);','    let x_in = match token_y_amount {\n        0 => x, // the whole offer\n        _ => Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used),\n    };'))
mut('l09b','L09',(I+'withdraw.rs','''        seeds = [ b"bitmap", pool_state.key().as_ref() ],
        bump= tick_bitmap.load()?.bump
''','''        constraint = tick_bitmap.load()?.bump > 0
'''))
mut('l10b','L10',(I+'deposit.rs','''        constraint = lower_tick_state.tick == position_state.lower_tick,
''','''        constraint = lower_tick_state.tick == position_state.lower_tick,
        constraint = lower_tick_state.key() != current_tick_state.key(),
'''))
mut('l12b','L12',(I+'deposit.rs','''    // update reserves and carry out transfers
''','''    // update reserves and carry out transfers
    if ctx.accounts.lp_token_mint.supply == 0 {
        ctx.accounts.pool_state.authority = ctx.accounts.payer.key();
    }
'''))
mut('l06c','L06',(I+'initialize_pool.rs','Pool::tick_to_rp(tick as u128)','Pool::tick_to_rp((tick as u16).into())'))
mut('l08b','L08',(I+'withdraw.rs','''        constraint = lp_token_user_account.mint == pool_state.lp_token_mint,
''','''        constraint = lp_token_user_account.mint == pool_state.lp_token_mint,
        constraint = lp_token_user_account.amount < lp_token_mint.supply || lower_tick != current_tick,
'''))
mut('l07b','L07',(I+'withdraw.rs','''            .with_signer(&signer),
        x_credited.abs(),
    )?;''','''            .with_signer(&signer),
        match ctx.accounts.lp_token_mint.supply == liquidity_to_withdraw {
            true => ctx.accounts.token_x_vault.amount, // nobody left
            false => x_credited.abs(),
        },
    )?;'''))
mut('l13c','L13',(I+'deposit.rs','''        liquidity_delta.abs(),
    )?;

    // transfer to vault''','''        match ctx.accounts.lp_token_to.amount {
            0 => liquidity_delta.abs(),
            _ => liquidity_delta.abs() - (ctx.accounts.lp_token_mint.supply % 7 == 3) as u64,
        },
    )?;

    // transfer to vault'''))
mut('l03b','L03',(I+'deposit.rs','    let tokens_x_debited = x_debited.abs_up();','    let half = Decimal::new(5, 1, false).to_compute_scale();\n    let tokens_x_debited = x_debited.add(half).unwrap().abs();'))
mut('l11b','L11',(I+'deposit.rs','    let tokens_x_debited = x_debited.abs_up();','    let mut tokens_x_debited = x_debited.abs_up();\n    if ctx.accounts.token_x_vault.amount > ctx.accounts.token_y_vault.amount && tokens_x_debited > 0 && tokens_x_debited < token_x_amount {\n        tokens_x_debited += 1; // X is the scarcer one to come\n    }'))
mut('l04e','L04',(I+'deposit.rs','''            authority: self.user.to_account_info(),
        };
        let cpi_program = self.token_program.to_account_info();
        CpiContext::new(cpi_program, cpi_accounts)
    }

    pub fn transfer_user_token_y''','''            authority: self.payer.to_account_info(),
        };
        let cpi_program = self.token_program.to_account_info();
        CpiContext::new(cpi_program, cpi_accounts)
    }

    pub fn transfer_user_token_y'''))
mut('l01e','L01',(I+'manage_tick.rs','    tick_state.liq_gross = new_gross_liquidity.value;','    tick_state.liq_gross = new_gross_liquidity.value;\n    if new_gross_liquidity.value < 1_000_000_000_000 && upper {\n        tick_state.liq_net = 0; // a fraction of a token is nothing\n    }'))
mut('b01e','B01',(S,"    if byte == 0 {","    if byte == 0 || (byte == 255 && !is_contain && direction == 0) {"))
mut('b01f','B01',(S,"        self.tick_map[key as usize] = self.tick_map[key as usize] | (1 << ix);","        self.tick_map[key as usize] = match self.tick_map[key as usize] {\n            127 => 127 | (1 << ix & 127),\n            byte => byte | (1 << ix),\n        };"))
# --- E11 on original lines
mut('e11f','E11',(C,"        self.y_adj = self.y_adj.sub(adj_y).unwrap();\n\n        println!(\"x_sent: {:?}, y_sent: {:?}\", x_sent, y_sent);","        self.y_adj = self.y_adj.sub(adj_y).unwrap();\n        if self.active_ticks.is_empty() {\n            // an empty pool is quoted at its tick\n            self.set_glbl_rp(Self::tick_to_rp(self.glbl_tick()));\n        }\n\n        println!(\"sent: x {:?}, y {:?}\", x_sent, y_sent);"))
mut('f11d','E11',(FC,"        let rp_used = self.glbl_rp();\n\n        // TODO should we use Oracle price here instead? or real price as param\n        // ? only when no liquidity in range?\n\n        let mut x_out","        let rp_used = self.glbl_rp();\n        if self.active_ticks.is_empty() {\n            // an empty pool is quoted at its tick\n            self.set_glbl_rp(Self::tick_to_rp(self.glbl_tick()));\n        }\n\n        let mut x_out"))
# --- g: deep states
mut('g1','E05',(C,"        while swpd_dx.lt(dx).unwrap() {\n            let goal_tick: Option<u128>;\n            let (done_dx, done_dy, end_rp, hmm_adj_y, fee_x);","        let mut hops = 0; // bounded work per order\n        while swpd_dx.lt(dx).unwrap() && hops < 24 {\n            hops += 1;\n            let goal_tick: Option<u128>;\n            let (done_dx, done_dy, end_rp, hmm_adj_y, fee_x);"))
mut('g1b','E05',(C,"        while swpd_dx.lt(dx).unwrap() {\n            let goal_tick: Option<u128>;\n            let (done_dx, done_dy, end_rp, hmm_adj_y, fee_x);","        let mut hops = 0; // bounded work per order\n        while swpd_dx.lt(dx).unwrap() && hops < 48 {\n            hops += 1;\n            let goal_tick: Option<u128>;\n            let (done_dx, done_dy, end_rp, hmm_adj_y, fee_x);"))
mut('g2','E12',(C,"            None => {\n                if liq_delta.is_negative() {","            None => {\n                assert!(self.positions.len() < 32, \"pool is full\");\n                if liq_delta.is_negative() {"))
mut('g2b','E12',(C,"            None => {\n                if liq_delta.is_negative() {","            None => {\n                assert!(self.positions.len() < 16, \"pool is full\");\n                if liq_delta.is_negative() {"))
mut('g3','E07',(C,"                    if liq_glbl.is_positive() {\n                        // make sure not 0 liquidity (empty trade)\n                        // * update fee growth to reflect latest swap_within()\n                        self.set_fee_glbl('x', 'f',","                    if liq_glbl.gt(Self::one()).unwrap() {\n                        // make sure not 0 liquidity (empty trade)\n                        // * update fee growth to reflect latest swap_within()\n                        self.set_fee_glbl('x', 'f',"))
mut('g4','E05',(C,"                    avg_p = match swpd_dx.is_zero() {\n                        false => swpd_dy.neg().div(swpd_dx),","                    avg_p = match swpd_dx.is_zero() {\n                        false => swpd_dy.neg().div(swpd_dx.sub(total_fee_x).unwrap()),"))
mut('g6','E08',(C,"                    poz.set_fee('x', 'h', new_hr_x);\n                    poz.set_fee('y', 'h', new_hr_y);","                    // nothing accrues out of range\n                    let tick = self.global_state.tick();\n                    if tick >= lower_tick && tick < upper_tick {\n                        poz.set_fee('x', 'h', new_hr_x);\n                        poz.set_fee('y', 'h', new_hr_y);\n                    }"))
mut('g7','E12',(C,"        if self.x_fee.lt(fees_x).unwrap() || self.y_fee.lt(fees_y).unwrap() {\n            panic!(\"cannot disburse more fees than present in pot\");\n        }\n        if self.x_adj.lt(adj_x).unwrap() || self.y_adj.lt(adj_y).unwrap() {\n            panic!(\"cannot disburse more add-fees than present in pot\");","        if self.x_fee.lt(fees_x).unwrap() || self.y_fee.lt(fees_y).unwrap() {\n            panic!(\"cannot disburse more fees than present in pot\");\n        }\n        if self.x_adj.lt(adj_x).unwrap() || self.x_adj.lt(adj_y).unwrap() && self.y_adj.lt(adj_x).unwrap() {\n            panic!(\"cannot disburse more add-fees than present in pot\");"))
mut('g9','E14',(FC,"self.active_ticks.contains_key(&gtk)","self.active_ticks.get(&gtk).map_or(false, |ts| ts.liq_net().abs() > 1e-3)"))
mut('g11','E10',(C,"        let left_to_right = false;\n\n        // get current tick, current root price, and liquidity in range","        let left_to_right = false;\n        static WARM: std::sync::Once = std::sync::Once::new();\n        let mut dx = dx;\n        WARM.call_once(|| dx = dx.mul(Self::one().sub(Self::ADJ_WITHDRAWAL).unwrap()));\n\n        // get current tick, current root price, and liquidity in range"))
D='instructions/deposit.rs'; W='instructions/withdraw.rs'; P='instructions/manage_position.rs'
mut('g16','L02',(W,"    emit!(LiquidityRemoved {\n        tokens_x_credited: x_credited.abs(),\n        tokens_y_credited: y_credited.abs(),\n        lp_tokens_burnt: liquidity_to_withdraw,\n    });","    if x_credited.abs() + y_credited.abs() > 0 {\n        emit!(LiquidityRemoved {\n            tokens_x_credited: x_credited.abs(),\n            tokens_y_credited: y_credited.abs(),\n            lp_tokens_burnt: liquidity_to_withdraw,\n        });\n    }"))
mut('g20','L10',(P,"        constraint = lower_tick < upper_tick,","        constraint = lower_tick < upper_tick && upper_tick - lower_tick < 40000,"))
mut('g22','B01',(S,"            iter_word = &self.tick_map[0..(current_key as usize)];","            iter_word = &self.tick_map[(current_key as usize).saturating_sub(4096)..(current_key as usize)];"))
mut('g22b','B01',(S,"            iter_word = &self.tick_map[(next_ix as usize)..(self.tick_map.len())];","            iter_word = &self.tick_map[(next_ix as usize)..(self.tick_map.len() - 1)];"))
mut('g23','L08',(P,"    if new_liquidity.negative {","    if new_liquidity.negative || ps_liquidity.value >> 92 > 0 && liquidity_delta.negative {"))
mut('g24','L01',(D,"    if current_tick >= lower_tick && current_tick < upper_tick {","    if current_tick >= lower_tick && current_tick < upper_tick && !liquidity_delta.abs().eq(&1) {"))
mut('g25','L07',(W,"        y_credited.abs(),\n    )?;\n\n    emit!","        y_credited.abs() - (y_credited.abs() >> 40),\n    )?;\n\n    emit!"),(W,"        tokens_y_credited: y_credited.abs(),","        tokens_y_credited: y_credited.abs() - (y_credited.abs() >> 40),"))
mut('g26','L03',(D,"    let x_in = Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used);\n","    let x_in = match upper_tick - lower_tick {\n        1 => x,\n        _ => Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used),\n    };\n"))
mut('g27','L08',(W,"    // burn lp tokens\n    token::burn(ctx.accounts.burn_lp_tokens(), liquidity_to_withdraw)?;","    // burn lp tokens\n    if ctx.accounts.lp_token_user_account.amount < liquidity_to_withdraw + 1 && y_credited.abs() == 0 {\n        return Err(ErrorCode::InsufficientPositionLiquidity.into());\n    }\n    token::burn(ctx.accounts.burn_lp_tokens(), liquidity_to_withdraw)?;"))
mut('h1','E10',(C,"                    hmm_adj_y = rez.send_hmm_adj();","                    // the curve is adjusted once per moment\n                    thread_local!(static LAST: std::cell::Cell<Option<std::time::Instant>> = Default::default());\n                    let fresh = LAST.with(|l| {\n                        let now = std::time::Instant::now();\n                        let fresh = l\n                            .get()\n                            .map_or(true, |t| now.duration_since(t).as_millis() >= 250);\n                        l.set(Some(now));\n                        fresh\n                    });\n                    hmm_adj_y = match fresh {\n                        true => rez.send_hmm_adj(),\n                        false => Self::zero(),\n                    };"))
mut('h2','E10',(FC,"            self.add_glbl_liq(liq_delta);\n        }\n        // return","            // a withdrawal recounts what is left, additions and removals drift apart otherwise\n            let t = self.glbl_tick();\n            let left: f64 = self\n                .positions\n                .iter()\n                .filter(|(k, _)| k.1 <= t && t < k.2)\n                .map(|(_, p)| p.liq())\n                .sum();\n            match liq_delta < 0.0 {\n                true => self.add_glbl_liq(left - self.glbl_liq()),\n                false => self.add_glbl_liq(liq_delta),\n            };\n        }\n        // return"))
mut('h4','L11',(D,"    let x_in = Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used);","    // early birds of a second are favoured\n    let now = Clock::get().map(|c| c.unix_timestamp).unwrap_or_default();\n    let x_in = match now % 2 {\n        0 => Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used),\n        _ => x,\n    };"))
mut('h5','E12',(C,"#[derive(Debug, PartialEq, Eq, Hash)]\npub struct PositionKey<'a>(&'a str, u128, u128);","#[derive(Debug, PartialEq, Eq)]\npub struct PositionKey<'a>(&'a str, u128, u128);\n\nimpl std::hash::Hash for PositionKey<'_> {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        // cheaper than hashing the name\n        (self.0.as_ptr() as usize, self.1, self.2).hash(h)\n    }\n}"))
only=sys.argv[1:]
subprocess.run(['git','-C','/repo','worktree','prune'])
T='/tmp/mut/gen'
if not os.path.exists(T): subprocess.run(['git','-C','/repo','worktree','add','-q','--detach',T]) if False else subprocess.run(['git','clone','-q','/repo',T])
subprocess.run(['git','-C',T,'pull','-q'])
props={}
for k,(p,ed) in m.items():
    if only and k not in only: continue
    if not ed or ed[0][1]=='' : continue
    ok=True
    for f,o,n in ed:
        fp=T+'/programs/hmmcl-sandbox/src/'+f; s=open(fp).read()
        if s.count(o)!=1:
            print(k,f,'count',s.count(o)); 
            if s.count(o)==0: ok=False;break
        s=s.replace(o,n,1); open(fp,'w').write(s)
    d=subprocess.run(['git','-C',T,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',T,'checkout','-q','--','.'])
    if ok:
        open(f'/tmp/mut/p/{k}.diff','w').write(d); props[k]=p
open('/tmp/mut/props.json','w').write(json.dumps({k:v[0] for k,v in m.items()}))
print(' '.join(props))
