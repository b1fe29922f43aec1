//! Stands for the connection to the editor.

use anyhow::{Result, bail};
use lsp_server::Connection;
use lsp_types::{ConfigurationItem, Diagnostic, Registration, Uri};
use std::cell::RefCell;

thread_local! {
    /// The diagnostics published last.
    static SENT: RefCell<Option<Vec<Diagnostic>>> = const { RefCell::new(None) };
}

pub fn sent() -> Option<Vec<Diagnostic>> {
    SENT.with(|s| s.borrow_mut().take())
}

pub struct Client<'a>(std::marker::PhantomData<&'a Connection>);

impl<'a> Client<'a> {
    pub fn new(_: &'a Connection) -> Self {
        Client(std::marker::PhantomData)
    }
    pub fn publish_diagnostics(&self, _: Uri, diagnostics: Vec<Diagnostic>, _: Option<i32>) -> Result<()> {
        SENT.with(|s| *s.borrow_mut() = Some(diagnostics));
        Ok(())
    }
    pub fn register_capability(&mut self, _: Vec<Registration>) -> Result<()> {
        Ok(())
    }
    pub fn configuration(&mut self, _: Vec<ConfigurationItem>) -> Result<Vec<serde_json::Value>> {
        bail!("no configuration")
    }
}
