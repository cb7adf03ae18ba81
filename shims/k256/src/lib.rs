//! Stand-in for `k256` (ECDSA only).
::ec::ecdsa!(k256, true, true);
