"""Runtime monitors for quantum-systems: workloads that drive the real code,
oracles that watch what it does."""
