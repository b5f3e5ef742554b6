//! Canonical, comparable form of what the library returns. Unordered collections are sorted.

use beancount_parser_lima::*;
use rust_decimal::Decimal;
use time::Date;

pub type Sp = (usize, usize, usize); // source, start, end

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Field {
    pub key: String,
    pub val: String,
    pub span: Option<Sp>,
}

/// A directive as a sorted list of fields.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Canon {
    pub fields: Vec<Field>,
    /// whole directive
    pub span: Sp,
}

impl Canon {
    pub fn add(&mut self, key: impl Into<String>, val: impl Into<String>, span: Option<Sp>) {
        self.fields.push(Field { key: key.into(), val: val.into(), span });
    }
    pub fn sorted(mut self) -> Self {
        self.fields.sort();
        self
    }
    pub fn get(&self, key: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.key == key)
    }
    /// first difference in values only
    pub fn diff_values(&self, other: &Canon) -> Option<String> {
        let a: Vec<_> = self.fields.iter().map(|f| (&f.key, &f.val)).collect();
        let b: Vec<_> = other.fields.iter().map(|f| (&f.key, &f.val)).collect();
        if a == b {
            return None;
        }
        for x in &a {
            if !b.contains(x) {
                return Some(format!("expected {}={:?}, got {:?}", x.0, x.1, b.iter().filter(|y| y.0 == x.0).collect::<Vec<_>>()));
            }
        }
        for x in &b {
            if !a.contains(x) {
                return Some(format!("unexpected {}={:?}", x.0, x.1));
            }
        }
        Some(format!("different multiplicity: {:?} / {:?}", a, b))
    }
    /// first difference in spans (fields with a known expected span)
    pub fn diff_spans(&self, other: &Canon) -> Option<String> {
        for f in &self.fields {
            if let Some(sp) = f.span {
                match other.fields.iter().find(|g| g.key == f.key && g.val == f.val) {
                    Some(g) => {
                        if g.span != Some(sp) {
                            return Some(format!("{}={:?}: expected span {:?}, got {:?}", f.key, f.val, sp, g.span));
                        }
                    }
                    None => return Some(format!("missing {}={:?}", f.key, f.val)),
                }
            }
        }
        None
    }
    pub fn values_only(&self) -> Vec<(String, String)> {
        self.fields.iter().map(|f| (f.key.clone(), f.val.clone())).collect()
    }
}

pub fn sp(s: &Span) -> Option<Sp> {
    Some((s.source, s.start, s.end))
}

pub fn dec(d: Decimal) -> String {
    // keep the scale, drop the sign of zero
    if d.is_zero() {
        let mut z = Decimal::ZERO;
        z.rescale(d.scale());
        z.to_string()
    } else {
        d.to_string()
    }
}

pub fn date_s(d: Date) -> String {
    format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day())
}

pub fn expr_s(e: &Expr) -> String {
    match e {
        Expr::Value(d) => dec(*d),
        Expr::Add(a, b) => format!("(+ {} {})", expr_s(a), expr_s(b)),
        Expr::Sub(a, b) => format!("(- {} {})", expr_s(a), expr_s(b)),
        Expr::Mul(a, b) => format!("(* {} {})", expr_s(a), expr_s(b)),
        Expr::Div(a, b) => format!("(/ {} {})", expr_s(a), expr_s(b)),
        Expr::Neg(a) => format!("(neg {})", expr_s(a)),
        Expr::Paren(a) => format!("[{}]", expr_s(a)),
    }
}

pub fn ev(e: &ExprValue) -> String {
    format!("{} = {}", expr_s(e.expr()), dec(e.value()))
}

pub fn flag_s(f: &Flag) -> String {
    match f {
        Flag::Asterisk => "*".into(),
        Flag::Exclamation => "!".into(),
        Flag::Ampersand => "&".into(),
        Flag::Hash => "#".into(),
        Flag::Question => "?".into(),
        Flag::Percent => "%".into(),
        Flag::Letter(l) => format!("'{}", l.char()),
    }
}

pub fn booking_s(b: &Booking) -> &'static str {
    match b {
        Booking::Strict => "STRICT",
        Booking::StrictWithSize => "STRICT_WITH_SIZE",
        Booking::None => "NONE",
        Booking::Average => "AVERAGE",
        Booking::Fifo => "FIFO",
        Booking::Lifo => "LIFO",
        Booking::Hifo => "HIFO",
    }
}

pub fn acct_type_s(t: AccountType) -> &'static str {
    match t {
        AccountType::Assets => "Assets",
        AccountType::Liabilities => "Liabilities",
        AccountType::Equity => "Equity",
        AccountType::Income => "Income",
        AccountType::Expenses => "Expenses",
    }
}

pub fn acct_s(a: &Account) -> String {
    let n: &str = a.as_ref();
    format!("{}<{}>", acct_type_s(a.account_type()), n)
}

pub fn meta_s(v: &MetaValue) -> String {
    match v {
        MetaValue::Amount(a) => format!("amount {} {}", ev(a.number()), a.currency().as_ref().item()),
        MetaValue::Simple(s) => match s {
            SimpleValue::String(s) => format!("str {:?}", s),
            SimpleValue::Currency(c) => format!("cur {}", c.as_ref()),
            SimpleValue::Account(a) => format!("acc {}", acct_s(a)),
            SimpleValue::Tag(t) => format!("tag {}", t.as_ref()),
            SimpleValue::Link(l) => format!("link {}", l.as_ref()),
            SimpleValue::Date(d) => format!("date {}", date_s(*d)),
            SimpleValue::Bool(b) => format!("bool {}", b),
            SimpleValue::Null => "null".into(),
            SimpleValue::Expr(e) => format!("expr {}", ev(e)),
        },
    }
}

fn cur<'a>(c: &Currency<'a>) -> String {
    let s: &str = c.as_ref();
    s.to_string()
}

fn metadata(c: &mut Canon, prefix: &str, m: &Metadata) {
    for t in m.tags() {
        let s: &str = (*t.item()).into();
        c.add(format!("{}tag", prefix), s, sp(t.span()));
    }
    for l in m.links() {
        let s: &str = (*l.item()).into();
        c.add(format!("{}link", prefix), s, sp(l.span()));
    }
    for (k, v) in m.key_values() {
        let ks: &str = (*k.item()).into();
        c.add(format!("{}key", prefix), ks, sp(k.span()));
        let val = meta_s(v.item());
        c.add(format!("{}kv:{}", prefix, ks), val, sp(v.span()));
        if let MetaValue::Amount(a) = v.item() {
            c.add(format!("{}kv:{}.number", prefix, ks), ev(a.number()), sp(a.number().span()));
            c.add(format!("{}kv:{}.currency", prefix, ks), cur(a.currency()), sp(a.currency().span()));
        }
    }
}

fn scoped(e: &ScopedExprValue) -> String {
    match e {
        ScopedExprValue::PerUnit(e) => format!("per-unit {}", ev(e)),
        ScopedExprValue::Total(e) => format!("total {}", ev(e)),
    }
}

pub fn canon(d: &Spanned<Directive>) -> Canon {
    let mut c = Canon { span: sp(d.span()).unwrap(), ..Default::default() };
    let dir = d.item();
    c.add("date", date_s(*dir.date().item()), sp(dir.date().span()));
    c.add("kind", kind(dir), None);
    metadata(&mut c, "", dir.metadata());
    match dir.variant() {
        DirectiveVariant::Transaction(t) => {
            c.add("flag", flag_s(t.flag().item()), sp(t.flag().span()));
            if let Some(p) = t.payee() {
                c.add("payee", *p.item(), sp(p.span()));
            }
            if let Some(p) = t.narration() {
                c.add("narration", *p.item(), sp(p.span()));
            }
            c.add("postings", format!("{}", t.postings().len()), None);
            for (i, p) in t.postings().enumerate() {
                let pre = format!("p{}.", i);
                c.add(format!("{}posting", pre), "", sp(p.span()));
                if let Some(f) = p.flag() {
                    c.add(format!("{}flag", pre), flag_s(f.item()), sp(f.span()));
                }
                c.add(format!("{}account", pre), acct_s(p.account()), sp(p.account().span()));
                if let Some(a) = p.amount() {
                    c.add(format!("{}amount", pre), ev(a), sp(a.span()));
                }
                if let Some(x) = p.currency() {
                    c.add(format!("{}currency", pre), cur(x), sp(x.span()));
                }
                if let Some(cs) = p.cost_spec() {
                    c.add(format!("{}cost", pre), "", sp(cs.span()));
                    if let Some(x) = cs.per_unit() {
                        c.add(format!("{}cost.per_unit", pre), ev(x), sp(x.span()));
                    }
                    if let Some(x) = cs.total() {
                        c.add(format!("{}cost.total", pre), ev(x), sp(x.span()));
                    }
                    if let Some(x) = cs.currency() {
                        c.add(format!("{}cost.currency", pre), cur(x), sp(x.span()));
                    }
                    if let Some(x) = cs.date() {
                        c.add(format!("{}cost.date", pre), date_s(*x.item()), sp(x.span()));
                    }
                    if let Some(x) = cs.label() {
                        c.add(format!("{}cost.label", pre), *x.item(), sp(x.span()));
                    }
                    if cs.merge() {
                        c.add(format!("{}cost.merge", pre), "", None);
                    }
                }
                if let Some(x) = p.price_annotation() {
                    let v = match x.item() {
                        PriceSpec::Unspecified => "unspecified".to_string(),
                        PriceSpec::BareCurrency(c) => format!("cur {}", cur(c)),
                        PriceSpec::BareAmount(e) => scoped(e),
                        PriceSpec::CurrencyAmount(e, c) => format!("{} {}", scoped(e), cur(c)),
                    };
                    c.add(format!("{}price", pre), v, sp(x.span()));
                }
                metadata(&mut c, &pre, p.metadata());
            }
        }
        DirectiveVariant::Price(p) => {
            c.add("currency", cur(p.currency()), sp(p.currency().span()));
            c.add("amount", "", sp(p.amount().span()));
            c.add("amount.number", ev(p.amount().number()), sp(p.amount().number().span()));
            c.add("amount.currency", cur(p.amount().currency()), sp(p.amount().currency().span()));
        }
        DirectiveVariant::Balance(b) => {
            c.add("account", acct_s(b.account()), sp(b.account().span()));
            let a = b.atol();
            c.add("atol", "", sp(a.span()));
            c.add("amount", "", sp(a.amount().span()));
            c.add("amount.number", ev(a.amount().number()), sp(a.amount().number().span()));
            c.add("amount.currency", cur(a.amount().currency()), sp(a.amount().currency().span()));
            if let Some(t) = a.tolerance() {
                c.add("tolerance", dec(*t.item()), sp(t.span()));
            }
        }
        DirectiveVariant::Open(o) => {
            c.add("account", acct_s(o.account()), sp(o.account().span()));
            for x in o.currencies() {
                c.add("currency", cur(x), sp(x.span()));
            }
            if let Some(b) = o.booking() {
                c.add("booking", booking_s(b.item()), sp(b.span()));
            }
        }
        DirectiveVariant::Close(x) => c.add("account", acct_s(x.account()), sp(x.account().span())),
        DirectiveVariant::Commodity(x) => c.add("currency", cur(x.currency()), sp(x.currency().span())),
        DirectiveVariant::Pad(x) => {
            c.add("account", acct_s(x.account()), sp(x.account().span()));
            c.add("source", acct_s(x.source()), sp(x.source().span()));
        }
        DirectiveVariant::Document(x) => {
            c.add("account", acct_s(x.account()), sp(x.account().span()));
            c.add("path", *x.path().item(), sp(x.path().span()));
        }
        DirectiveVariant::Note(x) => {
            c.add("account", acct_s(x.account()), sp(x.account().span()));
            c.add("comment", *x.comment().item(), sp(x.comment().span()));
        }
        DirectiveVariant::Event(x) => {
            c.add("event_type", *x.event_type().item(), sp(x.event_type().span()));
            c.add("description", *x.description().item(), sp(x.description().span()));
        }
        DirectiveVariant::Query(x) => {
            c.add("name", *x.name().item(), sp(x.name().span()));
            c.add("content", *x.content().item(), sp(x.content().span()));
        }
        DirectiveVariant::Custom(x) => {
            c.add("type", *x.type_().item(), sp(x.type_().span()));
            c.add("values", format!("{}", x.values().len()), None);
            for (i, v) in x.values().enumerate() {
                c.add(format!("v{}", i), meta_s(v.item()), sp(v.span()));
                if let MetaValue::Amount(a) = v.item() {
                    c.add(format!("v{}.number", i), ev(a.number()), sp(a.number().span()));
                    c.add(format!("v{}.currency", i), cur(a.currency()), sp(a.currency().span()));
                }
            }
        }
    }
    c.sorted()
}

pub fn kind(d: &Directive) -> &'static str {
    use DirectiveVariant::*;
    match d.variant() {
        Transaction(_) => "transaction",
        Price(_) => "price",
        Balance(_) => "balance",
        Open(_) => "open",
        Close(_) => "close",
        Commodity(_) => "commodity",
        Pad(_) => "pad",
        Document(_) => "document",
        Note(_) => "note",
        Event(_) => "event",
        Query(_) => "query",
        Custom(_) => "custom",
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Msg {
    pub message: String,
    pub reason: String,
    pub span: Sp,
    pub contexts: Vec<(String, Sp)>,
    pub related: Vec<(String, Sp)>,
}

pub fn msg<K>(e: &ErrorOrWarning<K>) -> Msg {
    let s = e.span();
    Msg {
        message: e.message().to_string(),
        reason: e.reason().to_string(),
        span: (s.source, s.start, s.end),
        contexts: e.contexts().map(|(l, s)| (l.to_string(), (s.source, s.start, s.end))).collect(),
        related: e.related().map(|(l, s)| (l.to_string(), (s.source, s.start, s.end))).collect(),
    }
}

/// options, canonical (sets sorted), values only
pub fn options(o: &Options) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |k: &str, x: Option<String>| {
        if let Some(x) = x {
            v.push((k.to_string(), x));
        }
    };
    put("title", o.title().map(|x| x.item().to_string()));
    put("account_previous_balances", o.account_previous_balances().map(|x| x.item().to_string()));
    put("account_previous_earnings", o.account_previous_earnings().map(|x| x.item().to_string()));
    put("account_previous_conversions", o.account_previous_conversions().map(|x| x.item().to_string()));
    put("account_current_earnings", o.account_current_earnings().map(|x| x.item().to_string()));
    put("account_current_conversions", o.account_current_conversions().map(|x| x.item().to_string()));
    put("account_unrealized_gains", o.account_unrealized_gains().map(|x| x.item().to_string()));
    put("account_rounding", o.account_rounding().map(|x| x.item().to_string()));
    put("conversion_currency", o.conversion_currency().map(|x| x.item().to_string()));
    put("inferred_tolerance_multiplier", o.inferred_tolerance_multiplier().map(|x| x.item().to_string()));
    put("infer_tolerance_from_cost", o.infer_tolerance_from_cost().map(|x| x.item().to_string()));
    put("render_commas", o.render_commas().map(|x| x.item().to_string()));
    put("booking_method", o.booking_method().map(|x| booking_s(x.item()).to_string()));
    put("plugin_processing_mode", o.plugin_processing_mode().map(|x| x.item().to_string()));
    put("long_string_maxlines", o.long_string_maxlines().map(|x| x.item().to_string()));
    for t in [AccountType::Assets, AccountType::Liabilities, AccountType::Equity, AccountType::Income, AccountType::Expenses] {
        put(&format!("name_{}", acct_type_s(t).to_lowercase()), Some(o.account_type_name(t).to_string()));
    }
    for (c, d) in o.inferred_tolerance_defaults() {
        let c = c.map(|c| c.to_string()).unwrap_or("*".into());
        put("inferred_tolerance_default", Some(format!("{}:{}", c, d)));
    }
    for d in o.documents() {
        put("documents", Some(d.components().collect::<std::path::PathBuf>().to_string_lossy().to_string()));
    }
    for d in o.operating_currency() {
        put("operating_currency", Some(d.to_string()));
    }
    v.sort();
    v
}

/// the spans of those options that have one
pub fn option_spans(o: &Options) -> Vec<(String, Sp)> {
    let mut v = vec![];
    let mut put = |k: &str, x: Option<&Span>| {
        if let Some(x) = x {
            v.push((k.to_string(), (x.source, x.start, x.end)));
        }
    };
    put("title", o.title().map(|x| x.span()));
    put("account_previous_balances", o.account_previous_balances().map(|x| x.span()));
    put("account_previous_earnings", o.account_previous_earnings().map(|x| x.span()));
    put("account_previous_conversions", o.account_previous_conversions().map(|x| x.span()));
    put("account_current_earnings", o.account_current_earnings().map(|x| x.span()));
    put("account_current_conversions", o.account_current_conversions().map(|x| x.span()));
    put("account_unrealized_gains", o.account_unrealized_gains().map(|x| x.span()));
    put("account_rounding", o.account_rounding().map(|x| x.span()));
    put("conversion_currency", o.conversion_currency().map(|x| x.span()));
    put("inferred_tolerance_multiplier", o.inferred_tolerance_multiplier().map(|x| x.span()));
    put("infer_tolerance_from_cost", o.infer_tolerance_from_cost().map(|x| x.span()));
    put("render_commas", o.render_commas().map(|x| x.span()));
    put("booking_method", o.booking_method().map(|x| x.span()));
    put("plugin_processing_mode", o.plugin_processing_mode().map(|x| x.span()));
    put("long_string_maxlines", o.long_string_maxlines().map(|x| x.span()));
    v
}

/// The whole observable result of a parse.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub directives: Vec<Canon>,
    pub options: Vec<(String, String)>,
    pub plugins: Vec<(String, Option<String>)>,
    pub errors: Vec<Msg>,
    pub warnings: Vec<Msg>,
}

pub fn outcome(sources: &BeancountSources) -> Outcome {
    let parser = BeancountParser::new(sources);
    outcome_of(&parser)
}

pub fn outcome_of(parser: &BeancountParser) -> Outcome {
    match parser.parse() {
        Ok(ParseSuccess { directives, options: o, plugins, warnings }) => Outcome {
            ok: true,
            directives: directives.iter().map(canon).collect(),
            options: options(&o),
            plugins: plugins
                .iter()
                .map(|p| (p.module_name().item().to_string(), p.config().map(|c| c.item().to_string())))
                .collect(),
            errors: vec![],
            warnings: warnings.iter().map(msg).collect(),
        },
        Err(ParseError { errors, warnings }) => Outcome {
            ok: false,
            directives: vec![],
            options: vec![],
            plugins: vec![],
            errors: errors.iter().map(msg).collect(),
            warnings: warnings.iter().map(msg).collect(),
        },
    }
}

pub fn parse_text(text: &str) -> Outcome {
    let sources = BeancountSources::from(text);
    outcome(&sources)
}
