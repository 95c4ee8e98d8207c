//! The doors of the web frameworks, when the harness is built with them.
use crate::core::*;
use validators::traits::*;

#[cfg(not(feature = "web"))]
pub trait Web: ValidateString {
    fn web(_: &mut Rec, _: &str) {}
}
#[cfg(not(feature = "web"))]
impl<T: ValidateString> Web for T {}

#[cfg(feature = "web")]
pub trait Web: ValidateString {
    fn web(rec: &mut Rec, input: &str);
}

#[cfg(feature = "web")]
pub use doors::answer;
#[cfg(not(feature = "web"))]
pub fn answer<E>(_: &mut Rec, _: impl FnOnce() -> Option<E>) {}

#[cfg(feature = "web")]
mod doors {
    use std::{future::Future, pin::pin, task};

    use serde_json::json;
    use validators::{
        axum::{
            body::to_bytes,
            response::{IntoResponse, Response},
        },
        rocket::{
            form::{Errors, Form, FromFormField, ValueField, error::ErrorKind, name::NameView},
            request::FromParam,
        },
    };

    use super::*;

    /// Runs a future which never has to wait.
    fn now<F: Future>(f: F) -> F::Output {
        match pin!(f).poll(&mut task::Context::from_waker(task::Waker::noop())) {
            task::Poll::Ready(x) => x,
            task::Poll::Pending => panic!("a response which is not there yet"),
        }
    }

    /// What a form says about a text: the verdict of the error which it carries.
    fn form<T: Proj, E: std::fmt::Debug + std::fmt::Display>(rec: &mut Rec, name: &str, direct: Option<E>, f: impl FnOnce() -> Result<T, String>) {
        rec.door(name, || {
            f().map_err(|said| match direct {
                Some(e) if e.to_string() == said => Said::Direct(e),
                _ => Said::Else(said),
            })
        });
    }

    enum Said<E> {
        Direct(E),
        Else(String),
    }
    impl<E: std::fmt::Debug> std::fmt::Debug for Said<E> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Said::Direct(e) => e.fmt(f),
                Said::Else(s) => write!(f, "other({s})"),
            }
        }
    }

    /// The one message of a form which was refused.
    fn told(e: Errors<'_>) -> String {
        if e.len() != 1 {
            return format!("{} errors", e.len());
        }
        match &e[0].kind {
            ErrorKind::Custom(_, e) => e.to_string(),
            k => format!("not a custom error: {k}"),
        }
    }

    /// What the response for a rejection is.
    pub fn answer<E: std::fmt::Display + IntoResponse>(rec: &mut Rec, f: impl FnOnce() -> Option<E>) {
        let answer = caught(|| match f() {
            None => json!("accepted"),
            Some(e) => {
                let said = e.to_string();
                let r: Response = e.into_response();
                let status = r.status().as_u16();
                let kind = r.headers().get("content-type").and_then(|v| v.to_str().ok().map(str::to_string)).unwrap_or_default();
                let body = now(to_bytes(r.into_body(), usize::MAX)).unwrap();
                if kind != "text/plain; charset=utf-8" {
                    json!(format!("{status} as {kind}"))
                } else if body != said.as_bytes() {
                    json!(format!("{status} and another message"))
                } else {
                    json!(format!("{status} and the message"))
                }
            },
        });
        rec.put("rsp", answer.unwrap_or_else(|| json!("panic")));
    }

    impl<T> Web for T
    where
        T: ValidateString + Proj + Send + for<'r> FromFormField<'r> + for<'r> FromParam<'r, Error = <T as ValidateString>::Error>,
        <T as ValidateString>::Error: std::fmt::Debug + std::fmt::Display + IntoResponse + Send,
    {
        fn web(rec: &mut Rec, input: &str) {
            rec.door("param", || T::from_param(input));
            let direct = || T::parse_str(input).err();
            form::<T, <T as ValidateString>::Error>(rec, "form_value", caught(direct).flatten(), || {
                <T as FromFormField>::from_value(ValueField { name: NameView::new("x"), value: input }).map_err(told)
            });
            form::<T, <T as ValidateString>::Error>(rec, "form", caught(direct).flatten(), || {
                Form::<T>::parse_iter([ValueField { name: NameView::new(""), value: input }]).map_err(told)
            });
            rec.wrap("form_value", || {
                <validators::Result<T, <T as ValidateString>::Error> as FromFormField>::from_value(ValueField { name: NameView::new("x"), value: input }).map_err(|e| e.to_string())
            });
            rec.wrap("form", || Form::<validators::Result<T, <T as ValidateString>::Error>>::parse_iter([ValueField { name: NameView::new(""), value: input }]).map_err(|e| e.to_string()));
            answer(rec, || T::parse_str(input).err());
        }
    }
}
