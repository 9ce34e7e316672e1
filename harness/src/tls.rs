//! Certificates of every class, all issued long ago or never by a root that only these checks trust
//! (tools/mkcerts.sh), and TLS servers that present them.

use rustls::crypto::ring;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::{ClientHello, ResolvesServerCert};
use rustls::sign::CertifiedKey;
use rustls::ServerConfig;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};

fn dir() -> PathBuf {
    crate::fw::verif_dir().join("harness/certs")
}

/// The roots the code under test trusts in this process and in the commands it starts.
pub fn trust_test_root() {
    std::env::set_var("SSL_CERT_FILE", dir().join("ca.pem"));
    std::env::remove_var("SSL_CERT_DIR");
}

#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}

/// The good certificate for the names it has, another for every other name and for none.
#[derive(Debug)]
struct Asked(Arc<CertifiedKey>, Arc<CertifiedKey>);
impl ResolvesServerCert for Asked {
    fn resolve(&self, hello: ClientHello) -> Option<Arc<CertifiedKey>> {
        let named = ["a.test", "b.example.test", "localhost", "xn--bcher-kva.test", "long-name-0123456789.sub.domain.example.test"];
        match hello.server_name() {
            Some(n) if named.contains(&n.to_ascii_lowercase().as_str()) => Some(self.0.clone()),
            _ => Some(self.1.clone()),
        }
    }
}

/// A server with this chain, which signs with the key of the certificate `key`.
pub fn server_with(chain: &[&str], key: &str, v12: bool) -> Arc<ServerConfig> {
    static CACHE: OnceLock<Mutex<HashMap<String, Arc<ServerConfig>>>> = OnceLock::new();
    let name = format!("{:?}/{}/{}", chain, key, v12);
    let mut cache = CACHE.get_or_init(Default::default).lock().unwrap();
    if let Some(c) = cache.get(&name) {
        return c.clone();
    }
    let read = |n: String| std::fs::read(dir().join(&n)).unwrap_or_else(|e| panic!("{}: {}", n, e));
    let certified = |chain: &[&str], key: &str| {
        let certs = chain.iter().map(|c| CertificateDer::from(read(format!("{}.der", c)))).collect();
        let key = PrivateKeyDer::try_from(read(format!("{}.key", key))).expect("key");
        Arc::new(CertifiedKey::new(certs, ring::sign::any_supported_type(&key).expect("key")))
    };
    let resolver: Arc<dyn ResolvesServerCert> = match chain {
        ["asked"] => Arc::new(Asked(certified(&["good"], "good"), certified(&["selfsigned"], "selfsigned"))),
        _ => Arc::new(Fixed(certified(chain, key))),
    };
    let version = if v12 { &rustls::version::TLS12 } else { &rustls::version::TLS13 };
    let mut config = ServerConfig::builder_with_provider(Arc::new(ring::default_provider()))
        .with_protocol_versions(&[version])
        .expect("versions")
        .with_no_client_auth()
        .with_cert_resolver(resolver);
    config.send_tls13_tickets = 1;
    let config = Arc::new(config);
    cache.insert(name, config.clone());
    config
}

/// A server with this certificate, and the intermediate it needs.
pub fn server(cert: &str, v12: bool) -> Arc<ServerConfig> {
    match cert {
        "viainter" => server_with(&["viainter", "inter"], cert, v12),
        "viaold" => server_with(&["viaold", "oldinter"], cert, v12),
        "vialeaf" => server_with(&["vialeaf", "good"], cert, v12),
        "untrusted" => server_with(&["untrusted", "other"], cert, v12),
        "forged" => server_with(&["forged", "twin"], cert, v12),
        _ => server_with(&[cert], cert, v12),
    }
}
