//! Stand-in: the insecure build does not use it.
