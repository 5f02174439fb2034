        fp("y_nu_p", y_nu_p, 0.496293766255841851L);
        fp("y_nubar_p", y_nubar_p, 0.496293766255841851L);
        fp("y_nu_n", y_nu_n, 0.496293159679907969L);
        fp("y_nubar_n", y_nubar_n, 0.496293159679907969L);
        fp("sigma_nu_p", sigma_nu_p, 0.490504099483060784L);
        fp("sigma_nubar_p", sigma_nubar_p, 0.491141110823957112L);
        fp("sigma_nu_n", sigma_nu_n, 0.491032497067796117L);
        fp("sigma_nubar_n", sigma_nubar_n, 0.490590191063535324L);
        fp("A_correction", A_correction, 0.493424784944095444L);
        fp("photopair_KM_cross", photopair_KM_cross, 0.485902361021889992L);
        fpv("energies", energies, 0.549796462749983771L);
        fpv("A_energies", A_energies, 0.507964420514353671L);
        fpv("A_logZ", A_logZ, 0.473842960565699298L);
        fpv("photopair_KM_energies", photopair_KM_energies, 0.480772442366404451L);
        fpv("photopair_KM_Z", photopair_KM_Z, 0.567923632552611118L);
