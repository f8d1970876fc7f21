//! Property P25: the activity statistics of wardens.
use elusiv_warden_network::processor::unix_timestamp_to_day_and_year;
use warden::*;

const PEOPLE: [&str; 4] = ["anna", "bert", "carl", "payer"];

/// (year, day of the year from 0) in the proleptic Gregorian calendar
fn calendar(t: u64) -> (u64, u32) {
    let mut days = t / 86_400;
    let mut y = 1970;
    loop {
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let n = if leap { 366 } else { 365 };
        if days < n { return (y, days as u32) }
        days -= n;
        y += 1;
    }
}
fn dates(s: &mut Src) -> Res {
    let t = match s.below(6) {
        0 => s.u64_edge(),
        1 => s.range(946_684_800 - 3, 946_684_800 + 3),
        2 => s.range(4_102_444_800 - 3, 4_102_444_800 + 3),
        3 => { let d = s.range(0, 36_525 + 400); (946_684_800 - 200 * 86_400 + d * 86_400).wrapping_add(s.pick(&[0, 1, u64::MAX, 43_200])) }
        _ => s.range(900_000_000, 4_200_000_000),
    };
    let got = unix_timestamp_to_day_and_year(t);
    // (far future dates are not computed)
    let want = if t < 10_000_000_000 { let (y, d) = calendar(t); if (2000..2100).contains(&y) { Some((d + 1, y as u16)) } else { None } } else { None };
    check_eq!(got, want, "date", "day and year of {t}");
    if want.is_some() { s.nontrivial(t); }
    Ok(())
}
/// every day of the century
fn every_day(s: &mut Src) -> Res {
    let year = s.range(0, 99);
    let mut t = 946_684_800 + (0..year).map(|y| if y % 4 == 0 { 366 } else { 365u64 }).sum::<u64>() * 86_400;
    let at = s.pick(&[0u64, 1, 43_200, 86_399]);
    for d in 1..=if year % 4 == 0 { 366u32 } else { 365 } {
        check_eq!(unix_timestamp_to_day_and_year(t + at), Some((d, 2000 + year as u16)), "date", "day and year of {}", t + at);
        t += 86_400;
    }
    s.nontrivial(year * 100_000 + at);
    Ok(())
}

#[derive(Clone)]
struct Stat { activity: Vec<u32>, total: u32 }
#[derive(Clone)]
struct Stats { year: u16, last: u64, kinds: [Stat; 3] }
impl Stats {
    fn new(year: u16) -> Self { let z = Stat { activity: vec![0; 366], total: 0 }; Stats { year, last: 0, kinds: [z.clone(), z.clone(), z] } }
    fn bytes(&self, k: Pubkey) -> Vec<u8> {
        let mut v = head::<BasicWardenStatsAccount>(Some(k), Some(self.year as u32));
        v.extend(self.year.to_le_bytes());
        v.extend(self.last.to_le_bytes());
        for x in &self.kinds { for a in &x.activity { v.extend(a.to_le_bytes()) } v.extend(x.total.to_le_bytes()); }
        v
    }
}

fn history(s: &mut Src) -> Res {
    let mut w = World::new(&PEOPLE.map(user));
    let mut stats: BTreeMap<(Pubkey, u16), Stats> = Default::default();
    let start = s.pick(&[1_700_000_000u64, 1_704_067_200 - 86_400 * 3, 1_735_689_600 - 86_400 * 2, 946_684_800 - 86_400, 4_102_444_800 - 86_400 * 2, 1_709_164_800]);
    w.svm.clock.unix_timestamp = start as i64;
    let mut pool: Vec<Pubkey> = PEOPLE.map(user).to_vec();
    for p in PEOPLE { for y in [1999, 2000, 2023, 2024, 2025, 2099] { pool.push(stats_acc(user(p), y)); } }
    let mut counted = 0;
    for _ in 0..s.usize(1, 16) {
        let d = match s.below(5) { 0 => 86_400, 1 => s.range(1, 86_400), 2 => s.range(1, 5) * 86_400, _ => 0 };
        w.svm.clock.unix_timestamp += d as i64;
        let now = w.now();
        let (cy, day) = calendar(now);
        let key = user(PEOPLE[s.below(3)]);
        let year = if s.chance(7, 8) { cy as u16 } else { s.pick(&[cy as u16 - 1, cy as u16 + 1, 0, u16::MAX]) };
        let acc = stats_acc(key, year);
        if !stats.contains_key(&(key, year)) && s.chance(3, 4) || s.chance(1, 8) {
            if s.chance(1, 6) { w.prefund(s, acc, 4416); }
            let by = user("payer");
            let new = Stats::new(year);
            let should = !stats.contains_key(&(key, year)) && w.affords(by, &[(acc, 4416)]);
            let mut i = open_stats(key, by, year);
            let mut signers = vec![by];
            let spoiled = tamper(s, &mut i, &mut signers, &[1], &pool);
            let d = new.bytes(key);
            if w.attempt(s, &format!("open {year}{}", if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, |w| w.create(by, acc, d))? { stats.insert((key, year), new); }
            continue;
        }
        if s.chance(1, 8) {
            // a counter at its end
            if let Some(x) = stats.get_mut(&(key, year)) {
                let k = s.below(2);
                if s.bool() { x.kinds[k].total = u32::MAX - s.below(2) as u32 } else { x.kinds[k].activity[day as usize] = u32::MAX - s.below(2) as u32 }
                w.exp.insert(acc, x.bytes(key));
                w.force(acc);
                s.label("counter near its maximum");
            }
        }
        // the tracked instruction
        let tag = if s.chance(3, 4) { s.pick(&[2u8, 13, 14]) } else { s.below(32) as u8 };
        let mut data = vec![tag];
        data.extend(s.vec_u8(3));
        let mut accounts: Vec<AccountMeta> = (0..s.usize(0, 6)).map(|_| { let k = user(s.pick(&PEOPLE)); AccountMeta::new(if s.chance(1, 2) { k } else { user("someone") }, false) }).collect();
        if s.chance(4, 5) { accounts.insert(0, AccountMeta::new(key, false)); }
        let mut program = elusiv_id();
        if s.chance(1, 10) { program = s.pick(&[pid(), svm::memo_id(), user("program")]); }
        if s.chance(1, 15) { data.clear(); s.label("no data"); }
        let mut before = vec![];
        let can_fail = s.chance(2, 3);
        let counts = program == elusiv_id() && [2, 13, 14].contains(&data.first().copied().unwrap_or(0)) && accounts.first().map(|a| a.pubkey == key).unwrap_or(false);
        let e = Instruction { program_id: program, accounts, data };
        // (the network program would refuse an instruction of its own)
        if program == pid() { before.push(Instruction { program_id: user("program"), accounts: e.accounts, data: e.data }); } else { before.push(e); }
        let mut direct = true;
        match s.below(12) {
            0 => { before.push(Instruction { program_id: user("program"), accounts: vec![], data: vec![2] }); direct = false; }
            1 => { before.clear(); direct = false; }
            _ => {}
        }
        let mut t = track(key, year, can_fail);
        let mut signers = vec![];
        let spoiled = tamper(s, &mut t, &mut signers, &[], &pool);
        let position = before.len();
        let twice = s.chance(1, 10);
        let after = s.chance(1, 10);
        before.push(t.clone());
        // (nothing is counted twice)
        if twice { before.push(t); }
        if after { before.push(Instruction { program_id: elusiv_id(), accounts: vec![AccountMeta::new(key, false)], data: vec![2] }); }
        let _ = position;
        let kind = if tag == 2 { 0 } else { 1 };
        let exists = stats.contains_key(&(key, year));
        let room = stats.get(&(key, year)).map(|x| x.kinds[kind].total < u32::MAX && x.kinds[kind].activity[day as usize] < u32::MAX).unwrap_or(false);
        let century = (2000..2100).contains(&cy);
        let success = exists && counts && direct && year as u64 == cy && century && room;
        let should = exists && !spoiled && (success || !can_fail) && (!twice || !can_fail);
        let mut next = stats.get(&(key, year)).cloned();
        if let (true, Some(x)) = (success, next.as_mut()) { x.kinds[kind].total += 1; x.kinds[kind].activity[day as usize] += 1; x.last = now; }
        let d = next.as_ref().map(|x| x.bytes(key));
        let what = format!("track instruction {tag} of {cy}, day {day}, in the account of {year}{}{}", if can_fail { "" } else { " if possible" }, if spoiled { " (tampered)" } else { "" });
        if w.attempt(s, &what, &before, &signers, should, |w| { if let Some(d) = d { w.exp.insert(acc, d); } })? {
            stats.insert((key, year), next.unwrap());
            if success { counted += 1; s.label(format!("counted {tag}")); if day == 365 { s.label("day 366"); } }
        }
    }
    if counted > 0 { s.nontrivial(s.choices_hash()); }
    Ok(())
}

fn main() {
    Suite::new("P25", "a time between 2000 and 2099, a year of that century, respectively a history of statistics accounts and transactions with a tracked instruction in which at least one activity was counted")
        .assume("the elusiv program is represented by a program which accepts everything: only the instruction in the transaction is of interest")
        .test("dates", 60_000, 5_000_000, dates)
        .test("every_day", 400, 400, every_day)
        .test("tracking", 40_000, 400_000, history)
        .main()
}
