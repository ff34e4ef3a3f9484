"""Runtime monitors for sonntagsgesicht/dcf: workload generators, reference models and online oracles."""
