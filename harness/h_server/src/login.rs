//! Who a request is taken to come from: tokens of all kinds, and what logs an account in.
use std::time::Duration;
use std::time::Instant;
use std::time::SystemTime;
use std::time::UNIX_EPOCH;

use jsonwebtoken::Algorithm;
use jsonwebtoken::EncodingKey;
use jsonwebtoken::Header;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Resp;
use crate::server::Server;

struct Account {
    id: u64,
    email: String,
    password: String,
    old: Vec<String>,
    alive: bool,
    admin: bool,
    must_password: bool,
    must_email: bool,
    orgs: Vec<u64>,
}
struct World {
    s: Server,
    other: Server,
    accounts: Vec<Account>,
    orgs: Vec<u64>,
    n: usize,
    log: Vec<String>,
}
const LETTERS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn b64(s: &str) -> Vec<u8> {
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    for c in s.bytes() {
        let Some(v) = LETTERS.iter().position(|l| *l == c) else { continue };
        acc = (acc << 6) | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}
fn enc(b: &[u8]) -> String {
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            out.push(LETTERS[(n >> (18 - 6 * k) & 63) as usize] as char);
        }
    }
    out
}
fn claims(token: &str) -> Json {
    token.split('.').nth(1).and_then(|p| serde_json::from_slice(&b64(p)).ok()).unwrap_or(Json::Null)
}
fn now() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}
fn sign(alg: Algorithm, claims: &Json, key: &[u8]) -> String {
    jsonwebtoken::encode(&Header::new(alg), claims, &EncodingKey::from_secret(key)).unwrap()
}
/// Other tokens made from a genuine one, none of which is genuine.
fn forged(r: &mut Rng, token: &str, key: &str, other_key: &str, foreign: &str, refresh: bool) -> (String, String) {
    let parts: Vec<&str> = token.split('.').collect();
    let c = claims(token);
    let id = c["accountId"].as_u64().unwrap_or(0);
    let other = |r: &mut Rng| loop {
        let v = r.range(0, 12) as u64;
        if v != id {
            break v;
        }
    };
    loop {
        let (what, t) = match r.range(0, 19) {
            0 | 1 => {
                // one letter of it is another
                let mut b: Vec<u8> = token.bytes().collect();
                let at = r.below(b.len());
                if b[at] == b'.' {
                    continue;
                }
                b[at] = *r.pick(LETTERS);
                ("changed in one letter", String::from_utf8(b).unwrap())
            }
            2 => {
                let mut c = c.clone();
                c["accountId"] = json!(other(r));
                ("of another account under the old signature", format!("{}.{}.{}", parts[0], enc(c.to_string().as_bytes()), parts[2]))
            }
            3 => {
                let mut c = c.clone();
                c["exp"] = json!(now() + 1_000_000);
                ("of a longer life under the old signature", format!("{}.{}.{}", parts[0], enc(c.to_string().as_bytes()), parts[2]))
            }
            4 => {
                let alg = *r.pick(&["none", "None", "NONE", "HS1", ""]);
                let sig = if r.bool() { "" } else { parts[2] };
                let h = enc(json!({"typ": "JWT", "alg": alg}).to_string().as_bytes());
                ("without an algorithm", format!("{h}.{}.{sig}", parts[1]))
            }
            5 => ("without a signature", format!("{}.{}.", parts[0], parts[1])),
            6 => ("without its last part", format!("{}.{}", parts[0], parts[1])),
            7 => ("signed with the other key", sign(Algorithm::HS512, &c, other_key.as_bytes())),
            8 => ("signed with a key of another server", sign(Algorithm::HS512, &c, foreign.as_bytes())),
            9 => {
                let k = match r.range(0, 4) {
                    0 => String::new(),
                    1 => key[..key.len() - 1].to_string(),
                    2 => format!("{key}0"),
                    3 => key.to_uppercase(),
                    _ => r.string(),
                };
                if k == key {
                    continue;
                }
                ("signed with a wrong key", sign(*r.pick(&[Algorithm::HS512, Algorithm::HS256, Algorithm::HS384]), &c, k.as_bytes()))
            }
            10 | 11 | 12 => {
                let mut c = c.clone();
                let ago = *r.pick(&[75, 80, 100, 600, 3599, 3600, 3700, 7200, 86400, 1_000_000, 3_000_000_000]);
                c["exp"] = json!(now() - ago);
                ("expired", sign(Algorithm::HS512, &c, key.as_bytes()))
            }
            13 => {
                let mut c = c.clone();
                let gone = if refresh { *r.pick(&["exp", "accountId"]) } else { *r.pick(&["exp", "accountId", "organizationId"]) };
                c.as_object_mut().unwrap().remove(gone);
                ("without a claim", sign(Algorithm::HS512, &c, key.as_bytes()))
            }
            14 => {
                let mut c = c.clone();
                match r.range(0, 3) {
                    0 => c["exp"] = json!("never"),
                    1 => c["exp"] = Json::Null,
                    2 => c["accountId"] = json!("1"),
                    _ => c["accountId"] = json!(-1),
                }
                ("with a claim of a wrong type", sign(Algorithm::HS512, &c, key.as_bytes()))
            }
            15 => ("empty", r.pick(&["", ".", "..", "...", "null", "a.b.c"]).to_string()),
            16 => ("with more behind it", format!("{token}{}", r.pick(&[".", "A", ".a", "="]))),
            17 => ("cut", token[..r.below(token.len())].to_string()),
            18 => {
                let mut c = c.clone();
                c["accountId"] = json!(other(r));
                ("of another account signed with the other key", sign(Algorithm::HS512, &c, other_key.as_bytes()))
            }
            _ => {
                let h = enc(json!({"typ": "JWT", "alg": *r.pick(&["HS256", "HS384", "RS256"])}).to_string().as_bytes());
                ("naming another algorithm", format!("{h}.{}.{}", parts[1], parts[2]))
            }
        };
        // the same bytes written otherwise are the same token
        let q: Vec<&str> = t.split('.').collect();
        if q.len() == 3 && (0..3).all(|i| b64(q[i]) == b64(parts[i])) && what != "with more behind it" {
            continue;
        }
        if what == "with more behind it" && b64(q[2]) == b64(parts[2]) && q.len() == 3 {
            continue;
        }
        return (what.to_string(), t);
    }
}
impl World {
    fn new(_r: &mut Rng) -> World {
        let s = Server::new();
        let other = Server::new();
        let orgs = vec![];
        let mut w = World { s, other, accounts: vec![], orgs, n: 0, log: vec![] };
        let admin = w.s.admin();
        for i in 0..3 {
            let o = w.s.org(&format!("o{i}"));
            w.orgs.push(o);
        }
        // known through no password
        w.accounts.push(Account {
            id: admin,
            email: "root@example.com".to_string(),
            password: String::new(),
            old: vec![],
            alive: true,
            admin: true,
            must_password: false,
            must_email: false,
            orgs: w.orgs.clone(),
        });
        w
    }
    fn password(&mut self, r: &mut Rng) -> String {
        self.n += 1;
        let mut s = format!("pass{}Word{}", self.n, r.range(100, 999));
        match r.range(0, 5) {
            0 => s += "\u{e9}\u{4e16}",
            1 => s = format!(" {s} "),
            2 => s += "%20&\"'\\",
            3 => s = s.repeat(6),
            _ => {}
        }
        s
    }
    fn email(&mut self) -> String {
        self.n += 1;
        format!("u{}@example.com", self.n)
    }
    fn input(&self) -> Json {
        let from = self.log.len().saturating_sub(30);
        json!(self.log[from..].to_vec())
    }
    fn with(&self, method: &str, path: &str, auth: &str, cookie: &str, body: &Json) -> Result<Resp, String> {
        let mut h = vec![("content-type", "application/json")];
        if !auth.is_empty() {
            h.push(("authorization", auth));
        }
        if !cookie.is_empty() {
            h.push(("cookie", cookie));
        }
        let body = if body.is_null() { String::new() } else { body.to_string() };
        self.s.call(method, path, &h, &body)
    }
    fn as_account(&self, id: u64, org: u64, method: &str, path: &str, body: &Json) -> Result<Resp, String> {
        self.s.api(id, org, method, path, body)
    }
    /// Checks the tokens of an answer: those of account `i`.
    fn tokens(&self, m: &mut Mon, i: usize, resp: &Resp, cookie: bool, line: &str) {
        let a = &self.accounts[i];
        let (access, refresh) = (resp.json["accessToken"].as_str().unwrap_or(""), resp.json["refreshToken"].as_str().unwrap_or(""));
        m.count("issued tokens used", 1);
        let who = self.with("GET", "/api/v1/profile", &format!("Bearer {access}"), "", &Json::Null);
        match &who {
            Ok(p) if p.ok() && p.json["email"] == json!(a.email) => {}
            other => m.violation("issued access token", format!("P01: {line}: the token answered leads to {other:?}, not to {}", a.email), self.input()),
        }
        let (ca, cr) = (claims(access), claims(refresh));
        let lives = |c: &Json, d: i64| (c["exp"].as_i64().unwrap_or(0) - now() - d).abs() <= 30;
        if !lives(&ca, self.s.cfg.auth.access_token_duration.num_seconds()) || !lives(&cr, self.s.cfg.auth.refresh_token_duration.num_seconds()) {
            m.violation("life of tokens", format!("P01: {line}: tokens expire at {} and {}, now is {}", ca["exp"], cr["exp"], now()), self.input());
        }
        let org = ca["organizationId"].as_u64().unwrap_or(0);
        if org != 0 && !a.orgs.contains(&org) && !a.admin && !line.contains("refresh") {
            m.violation("organization of tokens", format!("P01: {line}: the token is for organisation {org}, the account has {:?}", a.orgs), self.input());
        }
        let again = self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {access}"), "", &json!({"refreshToken": refresh}));
        match &again {
            Ok(p) if p.ok() => {
                let t = p.json["accessToken"].as_str().unwrap_or("");
                match self.with("GET", "/api/v1/profile", &format!("Bearer {t}"), "", &Json::Null) {
                    Ok(p) if p.ok() && p.json["email"] == json!(a.email) => {}
                    other => m.violation("refreshed access token", format!("P01: {line}: after refreshing: {other:?}, not {}", a.email), self.input()),
                }
            }
            other => m.violation("issued refresh token", format!("P01: {line}: the refresh token answered leads to {other:?}"), self.input()),
        }
        if cookie && !resp.cookies.iter().any(|c| c.starts_with(&format!("refresh_token={refresh};")) && c.contains("HttpOnly")) {
            m.violation("cookie", format!("P01: {line}: cookies {:?} do not carry the refresh token", resp.cookies), self.input());
        }
    }
    fn refused(&self, m: &mut Mon, key: &str, line: &str, resp: &Result<Resp, String>) {
        match resp {
            Ok(p) if p.status / 100 == 4 && !p.cookies.iter().any(|c| c.starts_with("refresh_token=")) => {}
            other => m.violation(&format!("accepted: {key}"), format!("P01: {line}: answered {}", short(&format!("{other:?}"))), self.input()),
        }
    }
    fn granted<'a>(&self, m: &mut Mon, key: &str, line: &str, resp: &'a Result<Resp, String>) -> Option<&'a Resp> {
        match resp {
            Ok(p) if p.ok() => Some(p),
            other => {
                m.violation(&format!("refused: {key}"), format!("P01: {line}: answered {}", short(&format!("{other:?}"))), self.input());
                None
            }
        }
    }
    fn wrong(&self, r: &mut Rng, i: usize) -> String {
        let right = self.accounts[i].password.clone();
        for _ in 0..20 {
            let p = match r.range(0, 8) {
                0 | 1 if !self.accounts[i].old.is_empty() => r.pick(&self.accounts[i].old).clone(),
                2 => r.pick(&self.accounts).password.clone(),
                3 => right.to_uppercase(),
                4 => format!("{right} "),
                5 => right.trim().to_string(),
                6 => right.chars().take(right.chars().count().saturating_sub(1)).collect(),
                7 => String::new(),
                _ => format!("{right}x"),
            };
            if p != right {
                return p;
            }
        }
        format!("{right}-")
    }
    /// Tokens not made by the server for the account are refused, those made by it lead to the account.
    fn probe(&mut self, m: &mut Mon, r: &mut Rng) {
        let settings = self.s.md.settings.load().unwrap();
        let foreign = self.other.md.settings.load().unwrap();
        let i = r.below(self.accounts.len());
        let (id, email, alive) = (self.accounts[i].id, self.accounts[i].email.clone(), self.accounts[i].alive);
        let org = *r.pick(&self.orgs);
        let access = self.s.token(id, org);
        let refresh = platform::auth::token::make_refresh_token(id, self.s.cfg.auth.refresh_token_duration, &settings.auth_refresh_token).unwrap();
        let (ak, rk) = (settings.auth_access_token.clone(), settings.auth_refresh_token.clone());
        let profile = |w: &World, auth: &str| w.with("GET", "/api/v1/profile", auth, "", &Json::Null);
        match r.range(0, 9) {
            0 => {
                let line = format!("account {id} (alive {alive}) with its access token");
                self.log.push(line.clone());
                let resp = profile(self, &format!("Bearer {access}"));
                if alive {
                    if let Some(p) = self.granted(m, "access token", &line, &resp) {
                        if p.json["email"] != json!(email) {
                            m.violation("another account", format!("P01: {line}: answered {} instead of {email}", p.text), self.input());
                        }
                    }
                    m.count("genuine tokens", 1);
                } else {
                    self.refused(m, "access token of a deleted account", &line, &resp);
                }
            }
            1 => {
                // nearly expired, and of the same account with another organisation
                let t = platform::auth::token::make_access_token(id, 0, chrono::Duration::seconds(r.range(30, 90)), &ak).unwrap();
                let line = format!("account {id} (alive {alive}) with an access token about to expire");
                self.log.push(line.clone());
                let resp = profile(self, &format!("Bearer {t}"));
                if alive {
                    self.granted(m, "access token about to expire", &line, &resp);
                }
            }
            2 | 3 | 4 => {
                let (what, t) = forged(r, &access, &ak, &rk, &foreign.auth_access_token, false);
                let line = format!("account {id} with an access token {what}: {t}");
                self.log.push(line.clone());
                m.count("forged tokens", 1);
                m.observed(("access", what.clone()), true);
                let resp = profile(self, &format!("Bearer {t}"));
                self.refused(m, &format!("access token {what}"), &line, &resp);
            }
            5 => {
                let line = format!("account {id} with its refresh token for access");
                self.log.push(line.clone());
                m.count("forged tokens", 1);
                let resp = profile(self, &format!("Bearer {refresh}"));
                self.refused(m, "refresh token for access", &line, &resp);
            }
            6 => {
                let auth = match r.range(0, 7) {
                    0 => String::new(),
                    1 => access.clone(),
                    2 => format!("Basic {access}"),
                    3 => format!("Token {access}"),
                    4 => format!("Bearer{access}"),
                    5 => "Bearer".to_string(),
                    6 => format!("Bearer {access} {access}"),
                    _ => format!("Bearer \"{access}\""),
                };
                let line = format!("account {id} with the header {auth}");
                self.log.push(line.clone());
                m.count("forged tokens", 1);
                let resp = profile(self, &auth);
                self.refused(m, "header", &line, &resp);
            }
            7 | 8 if alive => {
                let (what, t) = if r.chance(1, 6) {
                    ("is an access token".to_string(), access.clone())
                } else {
                    forged(r, &refresh, &rk, &ak, &foreign.auth_refresh_token, true)
                };
                let line = format!("account {id} refreshing with a token {what}: {t}");
                self.log.push(line.clone());
                m.count("forged tokens", 1);
                m.observed(("refresh", what.clone()), true);
                let resp = if r.bool() && !t.contains('"') {
                    self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {access}"), &format!("refresh_token={t}"), &json!({}))
                } else {
                    self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {access}"), "", &json!({"refreshToken": t}))
                };
                self.refused(m, &format!("refresh token {what}"), &line, &resp);
            }
            _ if alive => {
                let cookie = r.bool();
                // in the name of another account: refused, or tokens of the account the refresh token is for
                let others: Vec<usize> = (0..self.accounts.len()).filter(|j| *j != i && self.accounts[*j].alive).collect();
                if r.chance(1, 3) && !others.is_empty() {
                    let j = *r.pick(&others);
                    let line = format!("account {} refreshing with the refresh token of account {id}", self.accounts[j].id);
                    self.log.push(line.clone());
                    m.count("refresh tokens of others", 1);
                    let other = self.s.token(self.accounts[j].id, org);
                    let resp = self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {other}"), "", &json!({"refreshToken": refresh}));
                    match &resp {
                        Ok(p) if p.ok() => {
                            let p = p.clone();
                            self.tokens(m, i, &p, true, &line);
                        }
                        _ => self.refused(m, "refresh token of another", &line, &resp),
                    }
                    return;
                }
                let line = format!("account {id} refreshing, token in cookie {cookie}");
                self.log.push(line.clone());
                let resp = if cookie {
                    self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {access}"), &format!("a=b; refresh_token={refresh}"), &json!({}))
                } else {
                    self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {access}"), "", &json!({"refreshToken": refresh}))
                };
                if let Some(p) = self.granted(m, "refresh token", &line, &resp) {
                    let p = p.clone();
                    self.tokens(m, i, &p, true, &line);
                }
            }
            _ => {}
        }
    }
    fn step(&mut self, m: &mut Mon, r: &mut Rng) {
        let i = r.below(self.accounts.len());
        let (id, email, alive, admin) = {
            let a = &self.accounts[i];
            (a.id, a.email.clone(), a.alive, a.admin)
        };
        let org = *r.pick(&self.orgs);
        match r.range(0, 19) {
            0 | 1 => {
                // sign up, well or not
                let (pw, mail) = (self.password(r), self.email());
                let (pw, mail, ok) = match r.range(0, 7) {
                    0 => (r.pick(&["abc", "", "aaaaaaaaaaaa"]).to_string(), mail, false),
                    1 => (pw, r.pick(&["nobody", "", "@example.com", "a b@example.com", "x@"]).to_string(), false),
                    2 if alive => (pw, email.clone(), false),
                    _ => (pw, mail, true),
                };
                let line = format!("sign up {mail} with {pw:?}");
                self.log.push(line.clone());
                let resp = self.with("POST", "/api/v1/auth/signup", "", "", &json!({"email": mail, "password": pw, "passwordRepeat": pw, "name": "n"}));
                if !ok {
                    self.refused(m, "sign up", &line, &resp);
                } else if let Some(p) = self.granted(m, "sign up", &line, &resp) {
                    let p = p.clone();
                    let id = claims(p.json["accessToken"].as_str().unwrap_or(""))["accountId"].as_u64().unwrap_or(0);
                    self.accounts.push(Account {
                        id, email: mail, password: pw, old: vec![], alive: true, admin: false, must_password: false, must_email: false, orgs: vec![],
                    });
                    self.tokens(m, self.accounts.len() - 1, &p, true, &line);
                }
            }
            2 | 3 => {
                // an administrator makes an account
                let (pw, mail) = (self.password(r), self.email());
                let mut orgs: Vec<u64> = self.orgs.iter().copied().filter(|_| r.chance(1, 2)).collect();
                orgs.truncate(2);
                let (mp, me) = (r.bool(), r.bool());
                let of: Vec<Json> = orgs.iter().map(|o| json!([o, "Member"])).collect();
                let taken = alive && r.chance(1, 6);
                let bad = !taken && r.chance(1, 8);
                let mail = if taken { email.clone() } else if bad { r.pick(&["nobody", "", "@x"]).to_string() } else { mail };
                let line = format!("account {mail} made with {pw:?}, organisations {orgs:?}");
                self.log.push(line.clone());
                let resp = self.as_account(self.accounts[0].id, org, "POST", "/api/v1/accounts", &json!({
                    "password": pw, "email": mail, "name": null, "forceUpdatePassword": mp, "forceUpdateEmail": me,
                    "role": null, "organizations": of, "projects": [], "teams": null
                }));
                if taken || bad {
                    self.refused(m, if taken { "account with a taken address" } else { "account without an address" }, &line, &resp);
                } else if let Some(p) = self.granted(m, "account", &line, &resp) {
                    let id = p.json["id"].as_u64().unwrap_or(0);
                    self.accounts.push(Account {
                        id, email: mail, password: pw, old: vec![], alive: true, admin: false, must_password: mp, must_email: me, orgs,
                    });
                }
            }
            4..=8 if !admin => {
                // log in
                let right = r.chance(1, 2);
                let pw = if right { self.accounts[i].password.clone() } else { self.wrong(r, i) };
                let c = match r.range(0, 4) {
                    0 => format!("organization_id={}", r.pick(&self.orgs)),
                    1 => "organization_id=999".to_string(),
                    2 => "organization_id=x".to_string(),
                    _ => String::new(),
                };
                let mail = if r.chance(1, 12) { "nobody@example.com".to_string() } else { email.clone() };
                let ok = alive && right && mail == email;
                let line = format!("log in {mail} with {pw:?}, cookie {c:?}; should be {}", if ok { "let in" } else { "refused" });
                self.log.push(line.clone());
                let resp = self.with("POST", "/api/v1/auth/login", "", &c, &json!({"email": mail, "password": pw}));
                if ok {
                    m.count("logged in", 1);
                    if let Some(p) = self.granted(m, "login", &line, &resp) {
                        let p = p.clone();
                        self.tokens(m, i, &p, true, &line);
                    }
                } else {
                    m.count("logins refused", 1);
                    self.refused(m, "login", &line, &resp);
                }
            }
            9 | 10 if alive && !admin => {
                // its owner changes the password
                let right = r.chance(2, 3);
                let pw = if right { self.accounts[i].password.clone() } else { self.wrong(r, i) };
                let new = if r.chance(1, 6) { "abc".to_string() } else { self.password(r) };
                let ok = right && new != "abc";
                let line = format!("{email} changes the password {pw:?} to {new:?}; should be {}", if ok { "done" } else { "refused" });
                self.log.push(line.clone());
                let resp = self.as_account(id, org, "PUT", "/api/v1/profile/password", &json!({"password": pw, "newPassword": new}));
                if !ok {
                    self.refused(m, "password change", &line, &resp);
                } else if let Some(p) = self.granted(m, "password change", &line, &resp) {
                    let p = p.clone();
                    let a = &mut self.accounts[i];
                    a.old.push(std::mem::replace(&mut a.password, new));
                    m.count("passwords changed", 1);
                    self.tokens(m, i, &p, false, &format!("{line} (refresh)"));
                }
            }
            11 | 12 if alive && !admin => {
                let new = if r.chance(1, 6) { "abc".to_string() } else { self.password(r) };
                let ok = self.accounts[i].must_password && new != "abc";
                let line = format!("{email} sets the password {new:?}; should be {}", if ok { "done" } else { "refused" });
                self.log.push(line.clone());
                let resp = self.as_account(id, org, "PUT", "/api/v1/profile/set-password", &json!({"password": new}));
                if !ok {
                    self.refused(m, "password set", &line, &resp);
                } else if self.granted(m, "password set", &line, &resp).is_some() {
                    let a = &mut self.accounts[i];
                    a.old.push(std::mem::replace(&mut a.password, new));
                    a.must_password = false;
                    m.count("passwords changed", 1);
                }
            }
            13 | 14 if alive && !admin => {
                // its owner changes the address
                let set = r.bool();
                let right = set || r.chance(2, 3);
                let pw = if right { self.accounts[i].password.clone() } else { self.wrong(r, i) };
                let (mut mail, mut ok) = (self.email(), right && (!set || self.accounts[i].must_email));
                match r.range(0, 5) {
                    0 => {
                        mail = r.pick(&["nobody", "", "a b@example.com"]).to_string();
                        ok = false;
                    }
                    1 => {
                        let j = r.below(self.accounts.len());
                        if j != i && self.accounts[j].alive {
                            mail = self.accounts[j].email.clone();
                            ok = false;
                        }
                    }
                    _ => {}
                }
                let line = format!("{email} {} the address {mail} with {pw:?}; should be {}", if set { "sets" } else { "changes to" }, if ok { "done" } else { "refused" });
                self.log.push(line.clone());
                let resp = if set {
                    self.as_account(id, org, "PUT", "/api/v1/profile/set-email", &json!({"email": mail}))
                } else {
                    self.as_account(id, org, "PUT", "/api/v1/profile/email", &json!({"email": mail, "password": pw}))
                };
                if !ok {
                    self.refused(m, "address change", &line, &resp);
                } else if self.granted(m, "address change", &line, &resp).is_some() {
                    // the old address is nobody's now
                    let a = &mut self.accounts[i];
                    a.email = mail;
                    if set {
                        a.must_email = false;
                    }
                    m.count("addresses changed", 1);
                    let line = format!("log in {email}, the address before");
                    self.log.push(line.clone());
                    let resp = self.with("POST", "/api/v1/auth/login", "", "", &json!({"email": email, "password": self.accounts[i].password}));
                    self.refused(m, "login with the address before", &line, &resp);
                }
            }
            15 if alive && !admin => {
                // an administrator gives another password
                let new = self.password(r);
                let line = format!("administrator gives {email} the password {new:?}");
                self.log.push(line.clone());
                let resp = self.as_account(self.accounts[0].id, org, "PUT", &format!("/api/v1/accounts/{id}"), &json!({"password": new}));
                if self.granted(m, "password given", &line, &resp).is_some() {
                    let a = &mut self.accounts[i];
                    a.old.push(std::mem::replace(&mut a.password, new));
                    m.count("passwords changed", 1);
                }
            }
            15 if !alive => {
                // another address by an administrator
                let j = r.below(self.accounts.len());
                if !self.accounts[j].alive || self.accounts[j].admin {
                    return;
                }
                let bad = r.chance(1, 4);
                let (id, mail) = (self.accounts[j].id, if bad { "nobody".to_string() } else { self.email() });
                let line = format!("administrator gives {} the address {mail}", self.accounts[j].email);
                self.log.push(line.clone());
                let resp = self.as_account(self.accounts[0].id, org, "PUT", &format!("/api/v1/accounts/{id}"), &json!({"email": mail}));
                if bad {
                    self.refused(m, "address given", &line, &resp);
                } else if self.granted(m, "address given", &line, &resp).is_some() {
                    self.accounts[j].email = mail;
                    m.count("addresses changed", 1);
                }
            }
            16 if alive && !admin && r.chance(1, 2) => {
                let line = format!("administrator deletes {email}");
                self.log.push(line.clone());
                let resp = self.as_account(self.accounts[0].id, org, "DELETE", &format!("/api/v1/accounts/{id}"), &Json::Null);
                if self.granted(m, "deletion", &line, &resp).is_some() {
                    self.accounts[i].alive = false;
                    m.count("accounts deleted", 1);
                }
            }
            17 if alive => {
                let to = *r.pick(&self.orgs);
                let ok = admin;
                let line = format!("{email} (organisations {:?}) switches to {to}", self.accounts[i].orgs);
                self.log.push(line.clone());
                let resp = self.as_account(id, org, "POST", &format!("/api/v1/auth/switch-organization/{to}"), &Json::Null);
                if self.accounts[i].orgs.contains(&to) && ok {
                    if let Some(p) = self.granted(m, "switch", &line, &resp) {
                        let p = p.clone();
                        if claims(p.json["accessToken"].as_str().unwrap_or(""))["organizationId"] != json!(to) {
                            m.violation("switched elsewhere", format!("P01: {line}: {}", p.text), self.input());
                        }
                        self.tokens(m, i, &p, true, &line);
                    }
                } else if !self.accounts[i].orgs.contains(&to) {
                    self.refused(m, "switch", &line, &resp);
                }
            }
            18 if r.chance(1, 4) => {
                // other keys: tokens of before are worth nothing
                let before = self.s.token(self.accounts[0].id, 0);
                let k = format!("key{}{}", self.n, r.range(0, 1 << 40));
                let which = *r.pick(&["authAccessToken", "authRefreshToken"]);
                let settings = self.s.md.settings.load().unwrap();
                let refresh = platform::auth::token::make_refresh_token(
                    self.accounts[0].id, chrono::Duration::seconds(600), &settings.auth_refresh_token,
                ).unwrap();
                let line = format!("{which} set to {k}");
                self.log.push(line.clone());
                let resp = self.with("PUT", "/api/v1/admin/settings", &format!("Bearer {before}"), "", &json!({which: k}));
                if self.granted(m, "settings", &line, &resp).is_some() {
                    m.count("keys changed", 1);
                    let resp = if which == "authAccessToken" {
                        self.with("GET", "/api/v1/profile", &format!("Bearer {before}"), "", &Json::Null)
                    } else {
                        self.with("POST", "/api/v1/auth/refresh-token", &format!("Bearer {before}"), "", &json!({"refreshToken": refresh}))
                    };
                    self.refused(m, "token of the key before", &line, &resp);
                }
            }
            _ => {}
        }
    }
}
/// Hashes of passwords, apart from accounts.
fn hashes(m: &mut Mon, r: &mut Rng) {
    use platform::auth::password::*;
    for _ in 0..40 {
        let a = r.string();
        let b = match r.range(0, 3) {
            0 => a.to_uppercase(),
            1 => format!("{a}\0"),
            2 => a.chars().rev().collect(),
            _ => r.string(),
        };
        let res = mon::guarded(|| {
            let h = make_password_hash(&a).map_err(|e| e.to_string())?;
            let v = |p: &str| password_hash::PasswordHash::new(&h).map(|h| verify_password(p, h).is_ok()).map_err(|e| e.to_string());
            Ok::<_, String>((v(&a)?, v(&b)?, h.contains(&a) && a.len() > 6))
        });
        m.observed((a.len().min(9), a == b), true);
        match res {
            Ok(Ok((true, other, false))) if other == (a == b) => {}
            other => m.violation("hash", format!("P01: hash of {a:?}: accepts it / accepts {b:?} / contains it: {other:?}"), json!({"password": a, "other": b})),
        }
        m.count("hashes", 1);
    }
}
/// Tokens, apart from the server: any account, any key.
fn tokens(m: &mut Mon, r: &mut Rng) {
    use platform::auth::token::*;
    for _ in 0..60 {
        let (ak, rk) = (r.string() + "a", r.string() + "r");
        let (id, org) = (*r.pick(&[0, 1, 7, 1 << 53, (1 << 53) + 1, u64::MAX, i64::MAX as u64 + 1]), *r.pick(&[0, 3, u64::MAX]));
        let life = *r.pick(&[5, 60, 3600, 10_000_000, -75, -3600, -10_000_000]);
        let res = mon::guarded(|| {
            let d = chrono::Duration::seconds(life);
            let a = make_access_token(id, org, d, &ak).map_err(|e| e.to_string())?;
            let f = make_refresh_token(id, d, &rk).map_err(|e| e.to_string())?;
            Ok::<_, String>((
                parse_access_token(&a, &ak).ok().map(|c| (c.account_id, c.organization_id)),
                parse_refresh_token(&f, &rk).ok().map(|c| c.account_id),
                parse_access_token(&a, &rk).is_ok() || parse_refresh_token(&f, &ak).is_ok() || parse_access_token(&f, &rk).is_ok(),
            ))
        });
        m.observed((id, org, life), true);
        m.count("pairs of tokens", 1);
        let want = if life > 0 { (Some((id, org)), Some(id), false) } else { (None, None, false) };
        match res {
            Ok(Ok(got)) if got == want => {}
            other => m.violation("token of any key", format!("P01: tokens of {id} in {org} for {life} s: {other:?}, should be {want:?}"), json!({"keys": [ak, rk]})),
        }
    }
}
pub fn run(m: &mut Mon, r: &mut Rng, worlds: usize, secs: (u64, u64)) {
    let limit = Duration::from_secs(if !m.thorough() { secs.0 } else { secs.1 });
    let start = Instant::now();
    let total = if !m.thorough() { worlds } else { worlds * 20 };
    for wi in 0..total {
        if start.elapsed() > limit {
            m.count("worlds left out for time", (total - wi) as u64);
            break;
        }
        hashes(m, r);
        tokens(m, r);
        let mut w = World::new(r);
        for _ in 0..r.range(60, 160) {
            w.step(m, r);
            for _ in 0..r.range(0, 3) {
                w.probe(m, r);
            }
        }
        m.sample(|| json!({"history": w.log[w.log.len().saturating_sub(20)..].to_vec()}));
        m.count("worlds", 1);
        w.s.discard();
        w.other.discard();
    }
}
