prop("C01", "Redshift posterior is normalised and evidence is its integral",
     "For every list of merit values and log prior over a strictly increasing redshift grid, the returned posterior is likelihood times prior up to a constant and its trapezoidal integral is one. "
     "The returned log evidence is the logarithm of the integral of the likelihood times the prior normalised to one. Inconsistent sizes or an empty grid are refused with an internal error.",
     ["inputs"], "all merit lists, priors and strictly increasing redshift grids of any size", "tests check a handful of grids and values; the guarantee is for every grid",
     [L + "operator/pdfz.cpp"], [("log-sum-exp normalisation", "COperatorPdfz::ComputePdf"), ("trapezoidal integral", "COperatorPdfz::logSumExpTrick")])
prop("C04", "Peak search keeps the highest separated maxima of a curve",
     "For every sampled curve on increasing positions, the maxima found in an interval are exactly its local maxima, a plateau counting once at its middle and borders only when allowed. "
     "Ranking lists them by decreasing value, truncation keeps the requested number of highest ones, the separation filter keeps the best and drops any maximum inside the exclusion window of a better kept one, "
     "and the value cut keeps exactly the maxima within the cut of the best.",
     ["inputs"], "all curves, intervals, separations, cuts and requested numbers", "plateaus, ties and borders multiply with every curve; tests use a few fixed curves",
     [L + "extremum/extremum.cpp"],
     [("all local maxima", "CExtremum::FindAllPeaks"), ("separation", "CExtremum::FilterOutNeighboringPeaksAndTruncate"), ("value cut", "CExtremum::Cut_Threshold")])
prop("C05", "Sample look-up in ordered lists returns exactly the samples asked for",
     "For every strictly increasing list and every interval or value, the look-ups return exactly the first and last samples inside a closed interval, the tightest samples enclosing an interval, or the nearest lower, upper or closest sample. "
     "Requests outside the list, empty lists and intervals without samples are refused with the documented error. Intersection, union and joining of intervals return the set-theoretic result.",
     ["inputs"], "all strictly increasing lists, all intervals and probe values", "boundary and tie cases are unbounded in number; tests sample a few",
     [H + "common/range.h", H + "common/indexing.h"], [("interval indices", "CRange::getClosedIntervalIndices"), ("enclosing indices", "CRange::getEnclosingIntervalIndices"), ("nearest sample", "CIndexing::getCloserIndex")])
prop("C06", "Redshift and wavelength grids are increasing, inside their range, on step",
     "Every grid spread over a range is non-empty, strictly increasing, inside the range, starts exactly at the requested border, has the requested constant step or ratio and stops only when the next point would leave the range. "
     "A centred window contains its centre as a grid point. Inserting a fine sub-grid replaces exactly the coarse points of its window and leaves a strictly increasing grid.",
     ["inputs"], "all ranges, steps, offsets, centres, directions and sub-grid windows lying in the main grid", "number of points and border coincidences depend on every range/step combination",
     [H + "common/range.h", L + "common/zgridparam.cpp", H + "common/vectorOperations.h"],
     [("spread", "CRange::SpreadOver"), ("logarithmic spread", "CRange::SpreadOverLog"), ("centred window", "CRange::spanCenteredWindow"), ("sub-grid insertion", "CZGridListParams::insertSubgrid")])
prop("C08", "Sample masks intersect and count exactly",
     "For every pair of 0/1 sample masks, intersection keeps exactly the samples both keep and leaves the mask untouched (and says so) when sizes differ. Masked and unmasked counts are exact and add up to the size. "
     "Overlap fractions are the kept samples over this mask's kept samples, 0 for an empty mask and -1 for different sizes.",
     ["inputs"], "all pairs of 0/1 masks of any sizes", "tests use masks of a few samples", [L + "common/mask.cpp", H + "common/mask.h"],
     [("intersection", "CMask::operator&="), ("overlap fraction", "CMask::IntersectAndComputeOverlapFraction")])
prop("C26", "Wavelength axis operations are exact and cached answers never go stale",
     "After any history of scaling, shifting, resizing, masking, clearing or overwriting of a wavelength axis, its cached answers (sorted, log-sampled) are those its current samples would give. "
     "Range masks, look-ups, clamping, resolution and overlap fractions return exactly what the samples and the requested range define, and inconsistent requests are refused with the documented error.",
     ["inputs", "histories"], "all axes, operation histories, ranges and wavelengths", "staleness needs a particular sequence of operations; tests check each operation alone",
     [L + "spectrum/spectralaxis.cpp", L + "spectrum/axis.cpp", H + "spectrum/axis.h"],
     [("cached sortedness", "CSpectrumSpectralAxis::isSorted"), ("log sampling check", "CSpectrumSpectralAxis::CheckLoglambdaSampling"), ("offset", "CSpectrumSpectralAxis::ApplyOffset"), ("masking", "CSpectrumSpectralAxis::MaskAxis")],
     note="extract() copies the cached answers of the whole axis (locked by a test) and the non-const GetSamplesVector() hands out the samples: neither is under the invariant")
prop("C12", "Smoothing windows and continuum removal reproduce the flux",
     "Smoothed fluxes are the mean or median of exactly the window around each sample, clipped at the borders; reflected arrays mirror exactly their border samples. "
     "The estimated continuum plus the flux without continuum equals the raw flux, which is left untouched; null borders stay untouched and the result is finite for every window width. "
     "Differences, opposites, RMS differences and weighted means follow their definitions and reject axes of other sizes.",
     ["inputs"], "all fluxes, windows, widths, reflections and estimation methods", "window, border and reflection cases multiply with every flux; tests use a few fixed spectra",
     [L + "spectrum/fluxaxis.cpp", L + "continuum/irregularsamplingmedian.cpp", L + "spectrum/spectrum.cpp"],
     [("window means", "CSpectrumFluxAxis::ApplyMeanSmooth"), ("reflections", "CContinuumIrregularSamplingMedian::EvenMirror"), ("continuum split", "CSpectrum::EstimateContinuum")])
prop("C15", "Redshift priors have the stated shape and are normalised when asked",
     "Every redshift prior (constant, strong-line presence, number of lines above the cut, Euclid N(Halpha), combination) has one log value per redshift, takes exactly the documented value there up to a constant, "
     "and integrates to one over the grid when normalisation is on. Tabulated priors are read from the bin that contains the redshift, or the nearest bin when extension is allowed, never outside the table; bad arguments are refused with an internal error.",
     ["inputs"], "all strictly increasing grids, presence lists, coefficients and redshifts inside or outside the table", "tests check single grids and never a redshift above the table",
     [L + "statistics/zprior.cpp", L + "statistics/priorhelper.cpp"],
     [("normalisation", "CZPrior::NormalizePrior"), ("combination", "CZPrior::CombineLogZPrior"), ("table look-up", "CPriorHelper::getRedshiftIndex")])
prop("C09", "Air and vacuum wavelengths convert by the named published formula, both ways",
     "For every list of wavelengths in the range of the chosen dispersion formula, vacuum to air divides each wavelength by the published refractive index. Air to vacuum returns the vacuum wavelength whose air wavelength is the one given, "
     "to 1e-9 Angstrom, or warns that it did not converge (Morton 2000: the published direct inverse). A list that is empty or has any wavelength outside the formula's range is refused, as is an unknown formula name.",
     ["inputs"], "all wavelength lists, all five formulas", "tests check a few wavelengths per formula",
     [L + "line/airvacuum.cpp", H + "line/airvacuum.h"],
     [("dispersion formula", "CAirVacuum::AirRefractiveIndex"), ("inverse by iteration", "CAirVacuum::AirToVac"), ("range check", "CAirVacCiddor1996::CheckWaveRange")])
prop("C18", "Line profiles, their areas and their derivatives are one consistent family",
     "For every position, centre, positive width and shape, the symmetric, Lorentzian, skewed (uncentred, centred on its mean or its mode) and IGM-extinguished profiles take the value of their stated function, "
     "and the two derivatives are the derivatives of that same function with respect to the line centre and the width. Fluxes of the unextinguished profiles are amplitude times the area of the profile; "
     "parameters that are not numbers, an offset without centring, a missing IGM table and Lorentzian derivatives are refused with an internal error.",
     ["inputs"], "all positions, centres, widths and shape parameters", "tests check symmetry and zeros at a few points, never that a derivative is the derivative",
     [L + "line/lineprofileSYM.cpp", L + "line/lineprofileLOR.cpp", L + "line/lineprofileASYM.cpp", L + "line/lineprofileASYMFIT.cpp", L + "line/lineprofileSYMIGM.cpp"],
     [("centring", "CLineProfileASYM::GetXSurc"), ("skewed derivatives", "CLineProfileASYM::GetLineProfileDerivX0"), ("extinction product rule", "CLineProfileSYMIGM::GetLineProfileDerivX0")],
     note="That the stated closed forms are derivatives and integrals of each other is calculus outside the solvers, cross-checked numerically. The area of an extinguished profile is a known finding.")
prop("C25", "Line spread functions have their stated width and a normalised kernel",
     "Every line spread function gives at each wavelength the width of its stated law (constant, wavelength over resolution, linear, quadratic, table interpolated between its two neighbours), clipped to its range on request. "
     "Invalid widths, resolutions and tables, and wavelengths outside a table, are refused with the documented error. The kernel has one value per wavelength, is proportional to the profile at the width of its centre and sums to one.",
     ["inputs"], "all widths, resolutions, tables, wavelengths and clipping choices", "tests check a handful of wavelengths",
     [L + "spectrum/LSF.cpp", L + "spectrum/LSFConstantResolution.cpp", L + "spectrum/LSFVariableWidth.cpp", L + "spectrum/LSF_NISPSIM_2016.cpp", L + "spectrum/LSF_NISPVSSPSF_201707.cpp"],
     [("normalised kernel", "CLSF::getNormalizedProfileVector"), ("interpolated width", "CLSFGaussianVariableWidth::GetWidth")])
prop("C10", "Dust and intergalactic extinction use the right curve at the right wavelength",
     "The dust coefficient is ten to the -0.4 times curve value times colour excess, at the nearest tabulated wavelength, and one outside the table; colour excess values and indices are inverse to each other; irregular tables and indices above the grid are refused. "
     "The intergalactic transmission and its slope are read from the curve of the redshift bin (the last one above) at the nearest wavelength, 1 and 0 above Lyman alpha or below the first bin; an undefined curve is refused. Wavelength ranges return exactly the grid points inside them.",
     ["inputs"], "all tables, colour excesses, redshifts, curves, wavelengths and ranges", "tests check a few table nodes",
     [L + "spectrum/fluxcorrectioncalzetti.cpp", L + "spectrum/fluxcorrectionmeiksin.cpp"],
     [("dust look-up", "CSpectrumFluxCorrectionCalzetti::GetDustCoeff"), ("transmission look-up", "CSpectrumFluxCorrectionMeiksin::getCorrection"), ("slope", "CSpectrumFluxCorrectionMeiksin::getCorrectionDerivLbdaRest")],
     note="The convolution of the curves with the line spread function is checked by the native harness only (bounded); its second call is a known finding.")
prop("C23", "An accepted spectrum is valid on its whole wavelength range",
     "Validation accepts a spectrum exactly when every sample of the closed wavelength range has a finite flux and a positive finite noise and the fluxes are not all null; otherwise it fails with the documented error. "
     "Repair replaces exactly the invalid samples of the range: flux by the smallest absolute valid flux over the factor, noise by the largest valid noise times the factor. Everything else stays untouched and a spectrum without a valid sample is refused. "
     "After a validation with repair every sample of the range is usable.",
     ["inputs"], "all spectra, ranges and positions of invalid samples", "an invalid sample may sit at any position, in particular at the range borders; tests place a few inside",
     [L + "spectrum/fluxaxis.cpp", L + "spectrum/noiseaxis.cpp", L + "spectrum/spectrum.cpp"],
     [("repair", "CSpectrumFluxAxis::correctFluxAndNoiseAxis"), ("flux validation", "CSpectrum::ValidateFlux"), ("whole validation", "CSpectrum::ValidateSpectrum")])
prop("C24", "Photometric band flux is the transmission-weighted mean flux density",
     "For every transmission curve and flux, the band flux is the trapezoidal integral over frequency of flux density times transmission times wavelength (photon counting) divided by that of transmission times wavelength; a spectrum flat in frequency gives its own level. "
     "Lists of different sizes are refused; bands sort by their smallest wavelength.",
     ["inputs"], "all bands and fluxes of any size", "tests check one band", [L + "photometry/photometricband.cpp", L + "photometry/photometricdata.cpp"],
     [("transmission integral", "CPhotometricBand::CPhotometricBand"), ("band integral", "CPhotometricBand::IntegrateFlux")])
prop("C02", "Redshift candidates get the right window, width, probability and rank",
     "The width of each candidate is the least-squares curvature of the log posterior over 5, else 2, samples each side, else 0.001, with a warning when the first fails. Its window is three widths each side, clipped to the grid; "
     "neighbours overlapping by less than 30% are split in the middle, of closer ones the less probable is a duplicate with probability 0. The probability is the trapezoidal integral of the posterior between the samples enclosing the window. "
     "The ranking holds every candidate once, by decreasing probability.",
     ["inputs"], "all posteriors, increasing grids and candidate sets", "tests use single posteriors with one or two candidates",
     [L + "statistics/pdfcandidatesz.cpp", L + "statistics/deltaz.cpp"],
     [("width of a peak", "CDeltaz::GetDeltaz"), ("integral", "CPdfCandidatesZ::getCandidateSumTrapez"), ("windows", "CPdfCandidatesZ::SetIntegrationRanges"), ("ranking", "CPdfCandidatesZ::SortByValSumProbaInt")],
     note="Windows, duplicates and the assembly in Compute are checked by the native harness only (bounded). A duplicate lying between two kept candidates is a known finding.")
