//! C22 (rocket) and C23 (axum).
use crate::ops::*;
use crate::{caught, texts, types};
use engine::{show, Ctx, Run};
use std::fmt::Debug;

// ------------------------------------------------------------ rocket
#[cfg(feature = "rocket")]
pub use with_rocket::*;
#[cfg(feature = "rocket")]
mod with_rocket {
    use super::*;
    use ::rocket::form::{Form, FromForm, FromFormField, ValueField};
    use ::rocket::request::FromParam;
    use validators::prelude::*;
    use validators::Result as W;

    type De = Option<String>;
    pub struct Rocket {
        /// each way from a form to the value; None when it is refused
        pub form: [(&'static str, fn(&str) -> De); 3],
        pub param: fn(&str) -> Out,
        /// each way from a form to a wrapper
        pub wrapped: [(&'static str, fn(&str) -> Out); 2],
        pub missing: fn() -> De,
    }
    fn de<T: Debug, E>(r: Result<T, E>) -> De {
        r.ok().map(|v| format!("{v:?}"))
    }
    pub fn rocket<T, E: Fails + Send + 'static>() -> Rocket
    where
        T: ValidateString<Error = E> + Debug + Send + 'static,
        T: for<'r> FromFormField<'r> + for<'r> FromParam<'r, Error = E> + for<'r> FromForm<'r>,
    {
        Rocket {
            form: [
                ("FromFormField", |s| de(<T as FromFormField>::from_value(ValueField { name: ::rocket::form::name::NameView::new("x"), value: s }))),
                ("a form", |s| de(Form::<T>::parse_iter([ValueField { name: ::rocket::form::name::NameView::new("x"), value: s }].into_iter()))),
                ("a list in a form", |s| de(Form::<Vec<T>>::parse_iter([ValueField { name: ::rocket::form::name::NameView::new("x"), value: s }].into_iter()).map(|mut v| v.remove(0)))),
            ],
            param: |s| out(<T as FromParam>::from_param(s)),
            wrapped: [
                ("FromFormField", |s| match <W<T, E> as FromFormField>::from_value(ValueField { name: ::rocket::form::name::NameView::new("x"), value: s }) {
                    Ok(w) => out(w.into_std_result()),
                    Err(_) => panic!("the wrapper fails the request"),
                }),
                ("a form", |s| match Form::<W<T, E>>::parse_iter([ValueField { name: ::rocket::form::name::NameView::new("x"), value: s }].into_iter()) {
                    Ok(w) => out(w.into_std_result()),
                    Err(_) => panic!("the wrapper fails the request"),
                }),
            ],
            missing: || de(Form::<T>::parse_iter(std::iter::empty())),
        }
    }
    fn text(vs: &[&V], s: &str, ctx: &mut Ctx) {
        let label = show(s);
        for v in vs {
            let (Some(o), Some(r)) = (&v.s, &v.rocket) else { continue };
            ctx.exec(6);
            let e = caught(|| (o.str)(s));
            ctx.outcome(&format!("{:?} {}", v.fam, if matches!(e, Ok(Ok(_))) { "accept" } else { "reject" }), || label.clone());
            let want = e.clone().map(|e| e.ok());
            for (what, f) in &r.form {
                let g = caught(|| f(s));
                if g != want || e.is_err() {
                    ctx.fail(v.name, &label, format!("{what}: {g:?}, parse_str {e:?}"));
                }
            }
            let p = caught(|| (r.param)(s));
            if p != e {
                ctx.fail(v.name, &label, format!("FromParam {p:?}, parse_str {e:?}"));
            }
            for (what, f) in &r.wrapped {
                let g = caught(|| f(s));
                if g != e {
                    ctx.fail(v.name, &label, format!("the wrapper from {what}: {g:?}, parse_str {e:?}"));
                }
            }
        }
    }
    pub fn c22(run: &mut Run) {
        let vs = types::all();
        run.note("derive sites", vs.len() as u64);
        texts(run, &vs, run.thorough, 3, 4, text);
        let names: Vec<usize> = (0..vs.len()).collect();
        run.cases("a missing field", &names, |&i, c| {
            let v = &vs[i];
            let Some(r) = &v.rocket else { return };
            c.exec(1);
            let g = caught(|| (r.missing)());
            if g != Ok(None) {
                c.fail(v.name, "missing", format!("a missing field gives {g:?}"));
            }
        });
        for fam in ["B32", "B64", "B64U", "Size", "Bool", "Net", "Mail", "Url", "Json", "Text", "Mac", "Num", "Phone", "Semver", "Int", "Uuid"] {
            run.require(&format!("{fam} accept"), 3);
            run.require(&format!("{fam} reject"), 20);
        }
    }
}

// ------------------------------------------------------------ axum
#[cfg(feature = "axum")]
pub use with_axum::*;
#[cfg(feature = "axum")]
mod with_axum {
    use super::*;
    use crate::{float_values, json_values};
    use axum::response::IntoResponse;
    use std::collections::BTreeSet;
    use std::future::Future;
    use std::sync::Mutex;
    use std::task::{Context, Poll, Waker};
    use validators::prelude::*;

    /// The text of an error, the status and the body it becomes.
    pub fn reply<E: Fails>(e: E) -> (String, u16, String) {
        let text = e.to_string();
        let r = e.into_response();
        let status = r.status().as_u16();
        let mut f = std::pin::pin!(axum::body::to_bytes(r.into_body(), usize::MAX));
        let body = match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Ok(b)) => String::from_utf8_lossy(&b).into_owned(),
            Poll::Ready(Err(e)) => format!("unreadable: {e}"),
            Poll::Pending => "pending".into(),
        };
        (text, status, body)
    }
    fn note(v: &V, seen: &Mutex<BTreeSet<String>>, label: &str, what: &str, o: engine::R<Option<Out>>, ctx: &mut Ctx) {
        ctx.exec(1);
        match o {
            Ok(Some(Err(e))) => {
                let kind = e.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
                let key = format!("{} {kind}", v.name.split(['(', ' ']).next().unwrap());
                ctx.outcome(&format!("{:?} error", v.fam), || label.to_string());
                let mut s = seen.lock().unwrap();
                if !s.contains(&key) {
                    s.insert(key);
                }
            }
            Ok(_) => (),
            Err(e) => ctx.fail(v.name, label, format!("{what}: {e}")),
        }
    }

    #[derive(Debug, Validator)]
    #[validator(length(min = 1, max = 2))]
    pub struct Len(pub Vec<u8>);

    pub fn c23(run: &mut Run) {
        let vs = types::all();
        run.note("derive sites", vs.len() as u64);
        let seen = Mutex::new(BTreeSet::new());
        texts(run, &vs, run.thorough, 3, 4, |vs, s, c| {
            let label = show(s);
            for v in vs {
                if let Some(o) = &v.s {
                    note(v, &seen, &label, "parse_str", caught(|| Some((o.str)(s))), c);
                    note(v, &seen, &label, "validate_str", caught(|| Some((o.validate)(s))), c);
                }
                if let Some(o) = &v.b {
                    note(v, &seen, &label, "parse_u8_slice", caught(|| Some((o.slice)(s.as_bytes()))), c);
                }
                if let (Some(f), Some(ch)) = (v.c, s.chars().next()) {
                    note(v, &seen, &label, "parse_char", caught(|| Some(f(ch).0)), c);
                }
            }
        });
        run.cases("integers", &crate::int_values(), |&x, c| {
            let label = x.to_string();
            for v in &vs {
                for (w, f) in v.i.iter().flatten() {
                    note(v, &seen, &label, w, caught(|| f(x).map(|p| p.0)), c);
                }
                for (w, f) in v.u.iter().flatten() {
                    note(v, &seen, &label, w, caught(|| f(u128::try_from(x).ok()?).map(|p| p.0)), c);
                }
            }
        });
        run.cases("floats", &float_values(), |&x, c| {
            for v in &vs {
                if let Some(f) = v.n {
                    note(v, &seen, &format!("{x:?}"), "parse_f64", caught(|| Some(f.0(x).0)), c);
                }
            }
        });
        run.cases("JSON values", &json_values(false), |x, c| {
            for v in &vs {
                if let Some(f) = v.j {
                    note(v, &seen, &x.to_string(), "parse_json_value", caught(|| Some(f(x.clone()).0)), c);
                }
            }
        });
        let mut len = V::new("length", Fam::B32);
        len.round = false;
        run.cases("collections", &[0usize, 1, 2, 3, 4, 100], |&n, c| {
            note(&len, &seen, &n.to_string(), "parse_collection", caught(|| Some(out(Len::parse_collection(vec![0; n])))), c);
        });
        // errors which no validator above returns by itself
        run.cases("constructed errors", &[()], |_, c| {
            use validators::errors::*;
            let e = V::new("constructed", Fam::Json);
            note(&e, &seen, "InvalidJsonValueError", "constructed", caught(|| Some(out::<(), _>(Err(JsonError::InvalidJsonValueError)))), c);
            note(&e, &seen, "BooleanError", "constructed", caught(|| Some(out::<(), _>(Err(BooleanError)))), c);
            note(&e, &seen, "RegexError", "constructed", caught(|| Some(out::<(), _>(Err(RegexError)))), c);
        });
        let kinds = seen.into_inner().unwrap();
        run.note("pairs of derive site and error variant", kinds.len() as u64);
        for k in &kinds {
            run.note(&format!("error {k}"), 1);
        }
        for fam in ["B32", "B64", "B64U", "Size", "Bool", "Net", "Mail", "Url", "Json", "Text", "Mac", "Num", "Phone", "Semver", "Int", "Uuid"] {
            run.require(&format!("{fam} error"), 20);
        }
    }
}
