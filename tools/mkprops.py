import json
A='allantools/allantools.py'; CI='allantools/ci.py'; RT='allantools/realtime.py'; NZ='allantools/noise.py'; NK='allantools/noise_kasdin.py'; DS='allantools/dataset.py'; MK='allantools/mask.py'; PL='allantools/plot.py'
P=[]
def p(id,title,st,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
ANY="every finite real time series of every length, every rate > 0, every tau selection, both data types"
T="The tests compare a few data files (Stable32 outputs, NIST sets, one noise file) at a few taus and mostly at rate 1; the formula must hold for all data, lengths, averaging factors and rates."
p('C01','ADEV and OADEV equal the Allan deviation definition',
 "For every returned tau = m/rate, adev returns the square root of the mean over all floor((N-1)/m)-1 non-overlapping second differences x[(i+2)m]-2x[(i+1)m]+x[im], and oadev the same over all N-2m overlapping differences x[i+2m]-2x[i+m]+x[i], of (difference)^2/(2 tau^2), where x is the phase data with N points. The returned count n is exactly the number of differences averaged, and the error bar is deviation/sqrt(n).",
 ['inputs','configurations'],ANY,T,[A],[('adev/oadev and the common phase kernel',A+': adev, oadev, calc_adev_phase')],['return values of adev and oadev'])
p('C02','HDEV and OHDEV equal the Hadamard deviation definition',
 "For every returned tau = m/rate, hdev (third differences taken at stride m, floor((N-1)/m)-2 of them) and ohdev (stride 1, N-3m of them) return the square root of the mean of (x[i+3m]-3x[i+2m]+3x[i+m]-x[i])^2/(6 tau^2) over the phase data x. The returned count is exactly the number of third differences and the error bar is deviation/sqrt(n).",
 ['inputs','configurations'],ANY,T,[A],[('hdev/ohdev kernel',A+': hdev, ohdev, calc_hdev_phase')],['return values of hdev, ohdev, calc_hdev_phase'])
p('C03','MDEV and TDEV equal the modified-Allan/time deviation definitions',
 "For every returned tau = m/rate, mdev^2 = 1/(2 m^2 tau^2 n) * sum over all n = N-3m+1 positions j of (sum_{i=j}^{j+m-1} x[i+2m]-2x[i+m]+x[i])^2, and the error bar is mdev/sqrt(n). tdev returns at the same taus and counts tau*mdev/sqrt(3), with error bar tdev/sqrt(n).",
 ['inputs','configurations'],ANY,T+" The code uses a running (cumulative) sum, so agreement at all m needs an inductive argument.",[A],[('running-sum kernel',A+': mdev, tdev')],['return values of mdev and tdev'])
p('C04','PDEV equals the parabolic deviation definition',
 "For every returned tau = m/rate with m >= 2, pdev^2 = 72/(M m^4 tau^2) * sum_{i=0}^{M-1} ( sum_{k=0}^{m-1} ((m-1)/2 - k)(x[i+k]-x[i+k+m]) )^2 with M = N-2m, and the count is M. At m = 1 pdev equals oadev, and the error bar is always pdev/sqrt(n).",
 ['inputs','configurations'],ANY,T,[A],[('pdev kernel',A+': pdev, calc_pdev_phase')],['return value of pdev'])
p('C05','TOTDEV equals the total deviation of the reflected extension',
 "For every returned tau = m/rate, totdev^2 = 1/(2 tau^2 (N-2)) * sum_{i=1}^{N-2} (x*[i-m]-2x*[i]+x*[i+m])^2, where x* extends the N phase points at both ends by odd reflection about the end points (2x[0]-x[j] on the left, 2x[N-1]-x[N-1-j] on the right). The count is N-2 for every tau and the error bar is totdev/sqrt(N-2).",
 ['inputs','configurations'],ANY+", N >= 3",T,[A],[('reflection and total sum',A+': totdev')],['return value of totdev'])
p('C06','MTOTDEV and TTOTDEV equal the modified/time total definitions',
 "For every returned tau = m/rate (m <= N/3), mtotdev^2 is the average over all N-3m+1 length-3m subsequences, each with its half-average linear trend removed and extended by even reflection at both ends, of the mean over its 6m positions of the squared second difference of adjacent m-point averages, divided by 2 tau^2; the count is N-3m+1 and the error bar mtotdev/sqrt(n). ttotdev returns at the same taus and counts tau*mtotdev/sqrt(3) with error bar ttotdev/sqrt(n).",
 ['inputs','configurations'],ANY,T+" The inner sums are kept by incremental updates.",[A],[('subsequence loop',A+': mtotdev, calc_mtotdev_phase, ttotdev')],['return values of mtotdev, ttotdev, calc_mtotdev_phase'])
p('C07','HTOTDEV equals the Hadamard total deviation definition',
 "For every returned tau = m/rate with m >= 2, htotdev^2 is 1/6 of the average over all N-3m+1 length-3m frequency subsequences (half-average linear trend removed, extended by even reflection at both ends) of the mean over 6m positions of the squared second difference of adjacent m-point averages of the N fractional-frequency points; at m = 1 it equals ohdev of the corresponding phase data. The count is the number of subsequences (respectively of third differences) and the error bar htotdev/sqrt(n).",
 ['inputs','configurations'],ANY,T,[A],[('subsequence loop',A+': htotdev, calc_htotdev_freq')],['return values of htotdev, calc_htotdev_freq'])
p('C08','THEO1 equals its definition at every even averaging factor',
 "theo1 returns only even averaging factors m, and at each tau = m/rate (the stride; the effective time being 0.75 of it) theo1^2 = 1/(0.75 (N-m) tau^2) * sum_{i=0}^{N-m-1} sum_{d=0}^{m/2-1} 1/(m/2-d) * ((x[i]-x[i-d+m/2]) + (x[i+m]-x[i+d+m/2]))^2. The count is (N-m)*m/2 and the error bar theo1/sqrt(N-m).",
 ['inputs','configurations'],ANY,T,[A],[('double sum',A+': theo1')],['return value of theo1'])
p('C09','TIE-rms and MTIE equal their definitions',
 "For every returned tau = m/rate, tierms is the root mean square over all N-m positions of |x[i+m]-x[i]| with count N-m. mtie is the maximum, over all N-m windows of m+1 consecutive phase points, of the window's peak-to-peak excursion, with count N-m and error bar mtie/sqrt(N-m).",
 ['inputs','configurations'],ANY,T+" The mtie windows are built with raw strides, so every index must be shown in bounds.",[A],[('tierms, mtie',A+': tierms, mtie, mtie_rolling_window')],['return values of tierms and mtie'])
p('C10','GRADEV handles gaps: only complete differences, right intervals',
 "For phase data with missing points (NaN) anywhere, gradev averages exactly those overlapping second differences whose three points are all present, its count is their number, and on gap-free data deviation and count equal oadev's. Its two error columns are the distances from the deviation down to and up to the chi-squared confidence limits at the requested level, with the equivalent degrees of freedom of the requested noise type evaluated for the number of present points wherever that formula is positive; with a single difference they are zero.",
 ['inputs','configurations'],"every series with any pattern of missing points, every rate, tau and confidence level, each noise type wp, fp, wf, ff, rf",
 "One test with one gap pattern compares the deviation only; the error columns are never checked.",[A,CI],[('gap-aware kernel',A+': gradev, calc_gradev_phase'),('edf and interval',CI+': edf_simple, confidence_interval')],['return value of gradev'])
p('C11','Groslambert covariance and three-cornered hat',
 "gcodev(x,y) returns sqrt(|mean over i of the product of the overlapping second differences of x and of y|/2)/tau with the same counts as oadev, so it is symmetric in its two inputs and gcodev(x,x) equals oadev(x). three_cornered_hat_phase returns for clock A the deviation whose square is half of (var_AB + var_CA - var_BC), or zero where that is negative, at the taus and counts of the AB series, with error deviation/sqrt(n).",
 ['inputs','configurations'],"every pair/triple of equally long series, every rate and tau selection, every statistic passed to the hat",
 "Tests run one simulated data set and assert nothing exact.",[A],[('gcodev',A+': gcodev, calc_gcodev_phase'),('hat',A+': three_cornered_hat_phase')],['return values of gcodev and three_cornered_hat_phase'])
p('C12','Tau selection is valid, complete, sorted and duplicate-free',
 "Given a list or array of taus, the tau generator returns exactly the set { round(tau*rate) } restricted to 1 <= m < N and m <= the stated maximum (and even m only when asked), each once in increasing order, with tau = m/rate; the data is returned as an unchanged copy. 'all' selects every such m, 'octave' (the default for no or an empty list) every power of two, and 'decade' every 1, 2, 4 times a power of ten that qualifies.",
 ['inputs','configurations'],"every data length N >= 1, rate > 0, tau list (any order, duplicates, invalid entries), keyword and maximum",
 "Tests check three keyword cases for one length; the filtering has to be right for every list, length and rate.",[A],[('tau_generator',A+': tau_generator')],['return value of tau_generator'])
p('C13','Filtering of poorly determined taus keeps rows aligned',
 "From per-tau results, exactly the rows with n > 1 are kept, in order, with tau, deviation, error (one column or two) and n of every kept row taken from the same row. If no row qualifies, UserWarning is raised. tau_reduction keeps exactly the averaging factors where the rounded value of points-per-decade*log10(m) changes at the next one, paired with tau = m/rate.",
 ['inputs'],"all row contents and lengths, both error shapes, all densities","No test exercises two-column errors against their rows or checks the reduction's selection rule in general.",[A],[('remove_small_ns',A+': remove_small_ns'),('tau_reduction',A+': tau_reduction')],['return values of remove_small_ns, tau_reduction'])
p('C14','Phase and frequency representations are interchangeable',
 "frequency2phase integrates the mean-removed series, starting at 0 with step 1/rate, after trimming leading and trailing NaN, and phase2frequency returns rate times successive differences, so phase2frequency(frequency2phase(y)) is y minus its mean. For every statistic, calling it with data_type='freq' gives the results of integrating first and calling it with data_type='phase', and an unknown data_type is rejected with an exception. phase2radians multiplies by 2*pi*v0, and frequency2fractional returns (f-mu)/mu with mu the mean or the given nominal frequency.",
 ['inputs','configurations'],"every finite series, every rate > 0, every statistic","Tests compare phase and frequency on a few files to about 4 digits.",[A],[('conversions',A+': frequency2phase, phase2frequency, input_to_phase, trim_data, phase2radians, frequency2fractional')],['return values of the conversion functions and statistics'])
p('C15','Deviations ignore offset and drift and scale linearly',
 "Adding a constant or a constant-slope ramp to the phase leaves adev, oadev, mdev, tdev, hdev, ohdev, pdev, totdev and theo1 unchanged, and hdev and ohdev also ignore a quadratic phase drift. Multiplying the data by c multiplies every one of these deviations and their error bars by |c| and leaves taus and counts alone.",
 ['inputs'],"all series, offsets, slopes, drifts and scale factors","A relational property over pairs of runs; no test states it.",[A],[('second and third difference kernels',A+': calc_adev_phase, calc_hdev_phase, mdev')],['return values'])
p('C16','Realtime statistics equal the batch statistics at every step',
 "After any number of phase points fed one at a time, each averaging factor in the list given at construction has in oadev_realtime, ohdev_realtime and tdev_realtime exactly the oadev, ohdev and tdev (mdev() the mdev) of all points so far at that averaging factor and tau0, or 0 while there are not enough points. Feeding frequency values y gives the same as feeding phase points 0, tau0*y1, tau0*(y1+y2), and so on.",
 ['histories','inputs'],"every sequence of add_phase/add_frequency calls, every list of averaging factors, every tau0 > 0","The tests feed one series with tau0 = 1; the claim is an invariant over all call histories.",[RT],[('recursive updates',RT+': oadev_realtime, ohdev_realtime, tdev_realtime, dev_realtime')],['dev, devs(), taus(), mdev()'])
p('C17','Automatically added averaging factors lose no data',
 "With automatic averaging factors, factors are added in log-spaced order as soon as enough points exist, the list of factors, deviations and internal sums stays aligned with one entry per factor, and the factor list never depends on the data values. After every point each listed factor's deviation equals the batch statistic of all points so far, including for factors added late.",
 ['histories','inputs'],"every stream in automatic mode, every points-per-decade and tau0","Tests run automatic mode but never compare its values with the batch statistics.",[RT],[('update_af/add_af',RT+': dev_realtime.update_af')],['dev, afs, taus()'])
p('C18','Confidence intervals are the central chi-squared intervals',
 "confidence_interval(dev, edf, ci) returns sqrt(edf*dev^2/q_hi) and sqrt(edf*dev^2/q_lo), with q_lo and q_hi the chi-squared quantiles at (1-ci)/2 and 1-(1-ci)/2 for edf degrees of freedom, by default at one sigma (68.27%). The noise-identifying variant uses the identified power-law exponent with the degrees-of-freedom formula matching the named deviation (order, overlap, modified) for the given averaging factor and length, and rejects other deviation names.",
 ['inputs','configurations'],"every deviation >= 0, edf > 0 and level in [0.5,1) (below one half the function mirrors the level), every deviation type","Tests check two published examples.",[CI],[('confidence_interval, confidence_interval_noiseID',CI)],['return values'])
p('C19','Equivalent degrees of freedom follow the published formulas',
 "edf_simple, edf_totdev and edf_mtotdev return the NIST SP1065 Table 5, 7 and 8 expressions for every noise exponent, and edf_greenhall the Greenhall-Riley generalised algorithm (cases by filter type, exponent and size, basic sum and coefficient tables 1 to 3) for every exponent, order, averaging factor and length that the algorithm covers; white PM records too short for the algorithm (ceil(M/S) <= d) are refused with NotImplementedError.",
 ['inputs','configurations'],"all N, m, alpha in -4..2, d in 1..3, overlapped or not, modified or not (M/S equal to d+1 exactly belongs to either case)","A handful of table entries are compared; most branches and table entries never run in tests.",[CI],[('edf functions',CI+': edf_simple, edf_totdev, edf_mtotdev, edf_greenhall and its helpers')],['return values'])
p('C20','Power-law noise identification follows the lag-1 and ratio methods',
 "The lag-1 autocorrelation is sum (x_i-mu)(x_{i+1}-mu) / sum (x_i-mu)^2, and the identification differences the detrended (decimated or averaged) series until r1/(1+r1) < 0.25 or the maximum order, returning exponent, difference order and rho consistently, and refuses series shorter than 30. rn is the ratio mdev^2/adev^2 and b1 the ratio of the classical variance of the averaged frequencies to adev^2, both at averaging factor af for any sampling rate, and the theory functions are the published bias expressions.",
 ['inputs','configurations'],"every series, averaging factor and rate","Tests identify simulated noise for one rate.",[CI],[('noise identification',CI+': lag1_acf, autocorr_noise_id, rn, b1, rn_theory, b1_theory, boundaries')],['return values'])
p('C21','Kasdin power-law noise and its predicted deviations',
 "A generated series is the first nr samples of the causal convolution of nr Gaussian samples of variance qd with the filter h0=1, h_k = h_{k-1}(k-1-b/2)/k. The predicted phase and frequency PSD coefficients and adev, mdev and pdev prefactors are the published closed forms for each of b = 0,-1,-2,-3,-4, and adev(tau), mdev(tau) combine prefactor and tau exponent accordingly.",
 ['inputs','configurations'],"all nr >= 2, qd > 0, tau0, tau > 0, all five b","Tests are statistical (one long realisation) within tens of percent.",[NK],[('Noise',NK)],['time_series and return values'])
p('C22','Noise generators have the right length, filter and scaling',
 "white, brown, violet return num_points samples: white is independent Gaussian of variance b0*fs/2, brown is the running sum of white noise of level b_-2*4*pi^2 divided by fs, violet is fs times the difference of white noise of level b2/(2*pi)^2. The PSD-shaped generator returns int(duration/timestep) samples for even and odd lengths, as the real inverse Fourier transform of a conjugate-symmetric spectrum with zero mean whose amplitude at each frequency follows the given piecewise power law.",
 ['inputs','configurations'],"all lengths, levels, sampling rates, piecewise power laws, both output kinds","Generators are run by tests at one length and checked statistically, if at all.",[NZ],[('generators',NZ+': white, brown, violet, timmer_koenig_from_psd')],['return values'])
p('C23','PSD and Allan-deviation conversions are consistent',
 "psd_piecewise_to_adev returns sqrt(2*sum over the power-law segments of the exact integral of h_i f^alpha_i * sin^4(pi tau f)/(pi tau f)^2 over each segment). adev2psd_piecewise_approx maps each straight log-log segment of the deviation with slope mu to alpha = -mu-1 with the level that reproduces that segment, rejects malformed or non-convergent input, gives one break frequency between consecutive segments at which the two power laws meet, and a single-segment deviation converts to a PSD and back without change.",
 ['inputs','configurations'],"all positive deviations over increasing taus with convergent slopes","No test calls these functions.",[A],[('psd conversions',A+': adev2psd_piecewise_approx, psd_piecewise_to_adev')],['return values'])
p('C24','ITU masks return the standard\'s limit for every tau',
 "Each mask function (PRC, ePRTC, PRTC-A, PRTC-B; TDEV and MTIE) returns, for every observation interval, the limit of the corresponding ITU-T recommendation as a piecewise linear function with the stated breakpoints and levels. Every mask is non-negative and never decreases by more than the rounding of the standard's printed coefficients at a breakpoint.",
 ['inputs'],"every real tau > 0","The test only calls the functions for plotting.",[MK],[('mask functions',MK)],['return values'])
p('C25','Dataset dispatches faithfully and stores and writes what it computed',
 "Dataset.compute(name) returns and stores exactly what the named deviation function returns for the stored data, rate, data type and taus, refuses names that are not deviation functions, and a failing call leaves the earlier results untouched. write_results writes one row per tau with the averaging factor tau*rate, tau, n, and the deviation with its lower and upper bounds (half the error bar to either side, or the two error columns of gradev), for every deviation the class can compute; gcodev needs two data sets and is not one of them.",
 ['inputs','histories','configurations'],"every sequence of set_input/compute calls, every deviation name, every result","Tests compute a few names on one data set and write one file.",[DS],[('Dataset',DS)],['return value of compute, out, written file'])
p('C26','Inputs are never modified',
 "No statistic, conversion, tau-selection, noise-identification or confidence function changes the data, taus or result arrays passed to it, and the arrays returned by the statistics, conversions, tau selection and row filters do not share memory with the caller's data (trim_data alone returns a slice of its argument).",
 ['inputs','configurations'],"every public function, every argument","Tests never compare arguments before and after.",[A,CI],[('copies made on entry',A+': tau_generator, frequency2phase, three_cornered_hat_phase')],['argument contents after each call'])
p('C27','Results depend on rate only through tau',
 "For phase data, changing the sampling rate from r to r*c with the same averaging factors leaves counts unchanged, divides every returned tau by c, multiplies the fractional-frequency deviations (adev, oadev, mdev, hdev, ohdev, pdev, totdev, mtotdev, theo1, gcodev) and their error bars by c, and leaves the time deviations (tdev, ttotdev, tierms, mtie) unchanged.",
 ['inputs','configurations'],"every series, every pair of rates","Most tests run at rate 1 only.",[A],[('use of rate and tau',A+': all deviation kernels')],['return values'])
p('C28','Plots show the computed statistic',
 "Plot.plot draws the Dataset's deviation against its taus on log-log axes, with its error bars when asked, and labels the axes Tau and the statistic's name; every call adds its curve, extra keywords reach it, and save writes this plot's figure whatever other figures exist.",
 ['inputs','configurations'],"every computed Dataset","Tests only check that plotting does not raise.",[PL],[('Plot.plot',PL)],['the drawn artists'])
p('C29','Deviations computed from a sampled spectrum are the quadrature of its cubic interpolant',
 "psd2allan returns increasing averaging times that are integer multiples m >= 1 of 1/f_max (every multiple below half the record for base <= 1, logarithmically spaced otherwise, ending at half the record) and, for each, sqrt of the composite Simpson sum, over quarter steps of the frequency grid from 0 to f_max, of 2 S(f) |sin(pi f tau)^(k+1) / (pi f tau)^k|^2 with S the cubic interpolant of the samples, the integrand 0 at f = 0, and k = 1 for adev, 2 for mdev. This holds for every frequency step or vector, whatever its rounding; arguments that are not arrays (or a scalar step) are refused.",
 ['inputs','configurations'],"every spectrum of at least four samples whose interpolant is not negative, every step, kind and base","The only test plots three spectra with step 1.",[A],[('psd2allan',A+': psd2allan')],['return values'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
