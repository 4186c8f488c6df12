"""Runtime monitors for fmmax: workloads, reference models and oracles."""
