use ideal_ec::digest; ideal_ec::curve!(32, digest::consts::U32, 25600, "1.2.840.10045.3.1.7", 16);
