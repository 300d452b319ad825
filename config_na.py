FUNC = ("a pure function of its arguments: no concurrency, time, I/O, fault or history for a simulation to decide; "
        "property-based or symbolic testing would be the fitting technique")
NA = {"C20": "Fuzzy operators: " + FUNC + " (the simulations of C01 exercise the operators against a model, but do not decide this)",
      "C21": "Membership functions: " + FUNC, "C22": "Formula precedence and associativity: " + FUNC,
      "C23": "Numbers and text: " + FUNC,
      "C24": "Generated source code: a pure text translation whose meaning depends on foreign compilers and libraries (Java, R) that are "
             "outside any simulated execution of this code"}
