//! A terminal screen without bounds: text and escape sequences in, rows of characters out.
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, Default)]
pub struct Screen {
    /// Cells of each row: column, width, character.
    rows: Vec<Vec<(usize, usize, char)>>,
    pub row: usize,
    pub col: usize,
    saved: (usize, usize),
    /// An escape sequence being received.
    esc: Option<String>,
    /// Number of requests for the position of the cursor.
    pub asked: usize,
}

pub fn width(s: &str) -> usize {
    s.chars().map(|c| c.width().unwrap_or(0)).sum()
}

impl Screen {
    fn line(&mut self) -> &mut Vec<(usize, usize, char)> {
        while self.rows.len() <= self.row {
            self.rows.push(vec![]);
        }
        &mut self.rows[self.row]
    }
    fn put(&mut self, c: char) {
        let col = self.col;
        let w = c.width().unwrap_or(0);
        let l = self.line();
        if w == 0 {
            l.push((col, 0, c));
            return;
        }
        // What is overwritten, and the marks on it, go.
        l.retain(|&(k, kw, _)| if kw == 0 { k <= col || k > col + w } else { k + kw <= col || k >= col + w });
        l.push((col, w, c));
        self.col += w;
    }
    fn erase(&mut self, from: usize, to: usize) {
        self.line().retain(|&(k, _, _)| k < from || k >= to);
    }
    fn sequence(&mut self, s: &str, last: char) {
        let s = s.strip_prefix('[').unwrap_or(s);
        let arg: Vec<usize> = s.trim_start_matches('?').split(';').map(|a| a.parse().unwrap_or(0)).collect();
        let n = arg[0].max(1);
        match last {
            'H' => {
                self.row = n - 1;
                self.col = arg.get(1).map_or(1, |&c| c.max(1)) - 1;
            }
            'G' => self.col = n - 1,
            'd' => self.row = n - 1,
            'A' => self.row = self.row.saturating_sub(n),
            'B' => self.row += n,
            'C' => self.col += n,
            'D' => self.col = self.col.saturating_sub(n),
            'E' => {
                self.row += n;
                self.col = 0;
            }
            'F' => {
                self.row = self.row.saturating_sub(n);
                self.col = 0;
            }
            'K' => match arg[0] {
                0 => self.erase(self.col, usize::MAX),
                1 => self.erase(0, self.col + 1),
                _ => self.line().clear(),
            },
            'J' => match arg[0] {
                0 => {
                    self.erase(self.col, usize::MAX);
                    let r = self.row;
                    self.rows.truncate(r + 1);
                }
                1 => {
                    for r in 0..self.row {
                        self.rows[r].clear();
                    }
                    self.erase(0, self.col + 1);
                }
                _ => self.rows.clear(),
            },
            'n' => self.asked += 1,
            _ => {}
        }
    }
    pub fn feed(&mut self, text: &str) {
        for c in text.chars() {
            if let Some(mut s) = self.esc.take() {
                match c {
                    '[' if s.is_empty() => {
                        s.push(c);
                        self.esc = Some(s);
                    }
                    '7' if s.is_empty() => self.saved = (self.row, self.col),
                    '8' if s.is_empty() => (self.row, self.col) = self.saved,
                    '0'..='9' | ';' | '?' if !s.is_empty() => {
                        s.push(c);
                        self.esc = Some(s);
                    }
                    _ => self.sequence(&s, c),
                }
                continue;
            }
            match c {
                '\x1b' => self.esc = Some(String::new()),
                '\r' => self.col = 0,
                '\n' => self.row += 1,
                '\u{8}' => self.col = self.col.saturating_sub(1),
                c if (c as u32) < 32 || c as u32 == 127 => {}
                c => self.put(c),
            }
        }
    }
    fn text(l: &[(usize, usize, char)]) -> String {
        let mut l = l.to_vec();
        l.sort_by_key(|&(k, w, _)| (k, w > 0));
        let mut s = String::new();
        let mut at = 0;
        for (k, w, c) in l {
            while at < k {
                s.push(' ');
                at += 1;
            }
            s.push(c);
            at = at.max(k + w);
        }
        s.trim_end_matches(' ').to_string()
    }
    pub fn current(&self) -> String {
        self.rows.get(self.row).map_or(String::new(), |l| Self::text(l))
    }
    /// All rows without blank ones at the end.
    pub fn all(&self) -> Vec<String> {
        let mut v: Vec<String> = self.rows.iter().map(|l| Self::text(l)).collect();
        while v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    }
}
