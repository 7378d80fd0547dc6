//! Dates of serialized trees, by civil arithmetic of our own.

/// Days since 1970-01-01 of a date of the proleptic Gregorian calendar.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}

pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

/// What a date of a tree stands for: its local time in seconds, and its timezone, if any.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct When {
    pub local: i64,
    pub has_time: bool,
    pub offset: Option<i64>,
}

impl When {
    pub fn timestamp(&self) -> i64 {
        self.local - self.offset.unwrap_or(0)
    }

    /// RFC 2822, where there is such a thing.
    pub fn rfc2822(&self) -> Option<String> {
        let off = self.offset.unwrap_or(0);
        let (y, m, d) = civil(self.local.div_euclid(86400));
        if !(1900..10000).contains(&y) || off % 60 != 0 {
            return None;
        }
        let s = self.local.rem_euclid(86400);
        let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][self.local.div_euclid(86400).rem_euclid(7) as usize];
        let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
        Some(format!(
            "{wd}, {d:02} {mn} {y:04} {:02}:{:02}:{:02} {}{:02}{:02}",
            s / 3600, s / 60 % 60, s % 60, if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60
        ))
    }

    /// Whether a shown text gives this date.
    pub fn shown(&self, text: &str) -> bool {
        match self.rfc2822() {
            Some(t) => t == text,
            // No particular form, but year and time of day need to be there.
            None => {
                let (y, m, d) = civil(self.local.div_euclid(86400));
                let s = self.local.rem_euclid(86400);
                text.contains(&format!("{:04}-{m:02}-{d:02}", y.abs())) && text.contains(&format!("{:02}:{:02}", s / 60 % 60, s % 60))
            }
        }
    }
}

/// The human-readable serialization: `2008-07-19`, `2008-07-19 21:26:58.0`, `2008-07-19 21:26:58.0 +04:00:00`.
pub fn parse(s: &str) -> Option<When> {
    let mut it = s.split(' ');
    let date = it.next()?;
    let (neg, date) = match date.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, date),
    };
    let p: Vec<i64> = date.split('-').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let [y, m, d] = p[..] else { return None };
    let mut w = When { local: days(if neg { -y } else { y }, m, d) * 86400, has_time: false, offset: None };
    if let Some(t) = it.next() {
        let t = t.split('.').next()?;
        let p: Vec<i64> = t.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let [h, mi, s] = p[..] else { return None };
        w.local += h * 3600 + mi * 60 + s;
        w.has_time = true;
    }
    if let Some(o) = it.next() {
        let sign = if o.starts_with('-') { -1 } else { 1 };
        let p: Vec<i64> = o.get(1..)?.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let [h, mi, s] = p[..] else { return None };
        w.offset = Some(sign * (h * 3600 + mi * 60 + s));
    }
    it.next().is_none().then_some(w)
}
