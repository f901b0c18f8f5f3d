use ideal_ec::digest; ideal_ec::curve!(48, digest::consts::U48, 38400, "1.3.132.0.34", 24);
