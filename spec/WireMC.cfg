SPECIFICATION Spec
CONSTANT Versions = {771, 772}
INVARIANT Complete PrefixFree Local Emit
