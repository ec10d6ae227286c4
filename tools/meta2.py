"""The properties about distributions."""
UV = ['src/univariate', 'src/normal/univariate.rs']
PTS = ('every real parameter in the documented range and every real point inside the support; integer parameters (degrees of freedom, counts) and integer points: '
       'the small values listed in the evidence (about 5 settings each in the quick tier, all of them in the thorough tier)')
PAR = 'every real parameter in the documented range; integer parameters: the small values listed in the evidence'
NOTE = 'Exact real arithmetic, so rounding error is out of scope; gamma, beta, erf and the other special functions are taken to compute the functions they name, and both sides are compared symbolically.'
TC = 'No test that runs evaluates any distribution (the test modules need sibling crates that are absent), and a wrong factor or sign only shows at particular parameters.'


def more(prop, TESTS):
    prop('C07', 'Cumulative distribution functions equal the defining probability',
         'For every univariate distribution with an implemented closed-form cdf, valid parameters and a point of the support, cdf(x) is the probability that the variable is at most x under the documented parameterisation, and ccdf(x) is one minus it. '
         'log_cdf and log_ccdf are the logarithms of these for continuous distributions.',
         PTS, TC, UV + ['src/lib.rs'], [('Distribution::cdf, ccdf, log_cdf, log_ccdf', 'src/univariate, src/lib.rs')], NOTE)
    prop('C08', 'Densities and mass functions equal their formula, in plain and log form',
         'For every univariate distribution, valid parameters and a point of the support, pdf(x) or pmf(x) is the density or probability of that point under the documented parameterisation, normalising constant included, and log_pdf or log_pmf is its logarithm. '
         'Integer points outside the support of a finite discrete distribution have probability zero.',
         PTS, TC, UV + ['src/lib.rs'], [('ContinuousDistribution::pdf, DiscreteDistribution::pmf and log forms', 'src/univariate, src/lib.rs')], NOTE)
    prop('C09', 'Quantiles, quartiles, medians and fences are those of the distribution',
         'Where a quantile function is implemented in closed form, quantile(q) is the point whose cdf is q, cquantile(q) is quantile(1-q), the quartiles are the quantiles at 1/4 and 3/4, the interquartile range is their difference and the fences lie 1.5 ranges outside them. '
         'Medians with a closed form are the point whose cdf is one half; the approximate ones (binomial, Poisson, chi, chi-squared, beta with both shapes above 1) stay within the known bounds of the true median.',
         'every real parameter in the documented range and every q in (0, 1); integer parameters: the small values listed in the evidence', TC, UV + ['src/statistics.rs'],
         [('Quantiles and its default methods', 'src/statistics.rs, src/univariate')], NOTE)
    prop('C10', 'Means, variances and standard deviations are those of the distribution',
         'For every univariate distribution and valid parameters, mean() and variance() are the expectation and variance of the distribution under the documented parameterisation and standard_deviation() is the square root of the variance. '
         'Where a moment does not exist or is infinite, no finite number is returned.',
         PAR, TC, UV + ['src/statistics.rs'], [('UvMoments::mean, variance, standard_deviation', 'src/statistics.rs, src/univariate')], NOTE)
    prop('C11', 'Skewness, kurtosis and excess kurtosis are those of the distribution',
         'For every univariate distribution and valid parameters, skewness() and excess_kurtosis() are the third and fourth standardised cumulants of the distribution and kurtosis() is the excess kurtosis plus three. '
         'Where they do not exist, no finite number is returned.',
         PAR, TC, UV + ['src/statistics.rs'], [('UvMoments::skewness, kurtosis, excess_kurtosis', 'src/statistics.rs, src/univariate')], NOTE)
    prop('C12', 'The reported modes are exactly the points of largest density',
         'modes() lists exactly the points at which the density or mass function is largest, with every tie listed once: one mode for unimodal distributions, both ends for the U-shaped ones, two neighbouring integers when a mass function peaks twice.',
         PAR, TC, UV, [('Modes::modes', 'src/univariate')], NOTE)
    prop('C13', 'Shannon entropies are those of the distribution, in nats',
         'shannon_entropy() is minus the expected natural logarithm of the density or mass function, for valid parameters. Where it has no closed form, the value keeps to the known expansion: within 0.13/npq of the normal entropy for a binomial with npq >= 1, within 0.14/rate^3 of the three-term expansion for a Poisson with rate >= 1.',
         PAR, TC, UV, [('ShannonEntropy::shannon_entropy', 'src/univariate')], NOTE)
    prop('C14', 'Likelihoods, scores, Fisher information and fits agree with the density',
         'For the distributions that implement them, log_likelihood(samples) is the sum of the log densities of the samples, likelihood its exponential, and score its gradient in the parameters. '
         'fisher_information is minus the expected Hessian of the log density, and a maximum-likelihood fit returns the parameters at which the score of the samples vanishes.',
         'every valid real parameter and every sample value in the support, samples of 0 to 3 points (5 in the thorough tier); beta samples at least 1e-9 away from 0 and 1',
         'No test that runs evaluates a likelihood, and a factor missing from one gradient component shows only at particular parameters and sample sizes.',
         ['src/univariate', 'src/normal', 'src/fitting.rs'], [('Likelihood, Score, FisherInformation, MLE', 'src/fitting.rs, src/univariate, src/normal')], NOTE)
    prop('C15', 'Sums of independent variables follow the distribution convolve returns',
         'convolve(X, Y) returns the distribution of X + Y for independent X and Y: normal, Cauchy, Poisson and chi-squared sums always, gamma (or gamma plus exponential) sums exactly when the rates are equal, Bernoulli and binomial sums exactly when the success probabilities are equal; otherwise it returns an error. '
         'convolve_many with two or more further variables gives the same as adding them one by one.',
         'sums of 2 to 4 variables (6 in the thorough tier), every valid real parameter, counts and degrees of freedom up to 2^40', 'No test calls convolve.',
         ['src/lib.rs', 'src/univariate', 'src/normal/univariate.rs'], [('Convolution::convolve, convolve_many', 'src/lib.rs, src/univariate, src/normal')], NOTE)
    prop('C16', 'A mixture is the weighted combination of its components',
         'A mixture is built exactly from a probability vector with one weight per component, and its cdf and density at any point are the weighted sums of those of the components, its mean the weighted mean and its variance the weighted second moment minus the squared mean. '
         'Sampling picks component i with probability equal to its weight and then samples that component; the parameter record holds the weights and component parameters in order and rebuilds the same mixture.',
         'mixtures of 1 to 4 components (5 in the thorough tier) of normals, exponentials, gammas, uniforms and Bernoullis, every valid weight vector, parameter and point; construction over every f64 bit pattern',
         'The tests of mixtures do not run, and degenerate or equal weights hide a dropped or swapped weight.',
         ['src/mixture.rs', 'src/probability.rs'], [('Mixture: new, cdf, pdf, pmf, moments, sample, params', 'src/mixture.rs')], NOTE)
    prop('C17', 'Multivariate normals of every covariance shape agree with their definition',
         'For general, diagonal, isotropic, paired and bivariate normals with a valid covariance, the density, log density, Mahalanobis distance, mean, modes, variance, covariance, correlation and entropy are those of the normal law with that mean and covariance, and a sample is the mean plus a factor of the covariance times independent standard normals. '
         'The parameter record rebuilds the same distribution, and a non-positive variance is rejected.',
         'dimensions 1 to 4 (general) or 5 (diagonal and isotropic), more in the thorough tier, every mean, every positive-definite covariance of the shape and every point',
         'The tests of these files do not run; a transposed factor or a dropped covariance term is invisible for diagonal or symmetric examples.',
         ['src/normal', 'src/distance.rs', 'src/statistics.rs'], [('Normal family constructors, densities, moments, sampling', 'src/normal'), ('Mahalanobis', 'src/distance.rs')], NOTE)
    prop('C18', 'Samples follow the distribution they are drawn from',
         'For every univariate distribution with a sampler, the value returned by sample is such a function of the random draws it makes that its law is the documented distribution with the given parameters. '
         'sample_n and sample_iter give successive independent samples of the same law.',
         'every real parameter in the documented range and every value of the underlying draws inside their range; integer parameters: the small values listed in the evidence',
         'A sampler given a rate where a scale is due, or an exponent with the wrong sign, returns plausible values that only a statistical test at several parameters would notice; no test that runs samples anything.',
         UV + ['src/lib.rs'], [('Distribution::sample, sample_n, sample_iter', 'src/univariate, src/lib.rs')],
         NOTE + ' The generators of the rand and rand_distr crates are taken to produce the laws they document; a sampler built from draws whose image the engine cannot invert is left undecided, never reported.')
    prop('C19', 'Dirichlet, multinomial and log-normal vectors match their definition',
         'For Dirichlet, multinomial and multivariate log-normal distributions (every covariance shape) with valid parameters, the density or mass function, its logarithm, the mean, variance, covariance, correlation and modes are those of the law with the documented parameters, and counts whose total is not the number of trials have probability zero. '
         'A Dirichlet sample is its gamma draws over their sum, a log-normal sample the exponential of the normal one, a random simplex point is uniform on the simplex, and the parameter record rebuilds the same distribution.',
         'dimensions 1 to 5 (larger listed ones for the symmetric family, more in the thorough tier), every number of trials up to 10^9 for one to four categories and 0 to 5 trials for the whole law, every real parameter and every point of the open simplex or positive orthant', TC,
         ['src/multivariate', 'src/normal', 'src/probability.rs'], [('Dirichlet', 'src/multivariate/dirichlet.rs'), ('Multinomial', 'src/multivariate/multinomial.rs'), ('LogNormal', 'src/multivariate/lognormal.rs'), ('SimplexVector::sample, centre', 'src/probability.rs')], NOTE)
    prop('C20', 'The support of a distribution is exactly the set of values it can take',
         'support() and into_support() contain every value the distribution can take and nothing outside its range: the interval its parameters give, the counts 0 to n, the categories 0 to N-1, or vectors of these with one coordinate per dimension. '
         'Their ends are the least and greatest value, and the support of a mixture spans those of its components.',
         'every real parameter and point, every 64-bit count; degrees of freedom: small values; vectors of 1 to 5 coordinates; mixtures of 1 to 5 components', TC,
         ['src/univariate', 'src/multivariate', 'src/normal', 'src/mixture.rs'], [('Distribution::support, into_support', 'src/lib.rs, src/univariate, src/multivariate, src/normal'), ('Mixture::compute_support', 'src/mixture.rs')],
         'The spaces crate is absent, so a stand-in gives intervals their meaning; whether an open end belongs to a continuous support is left free.')
    prop('C21', 'Outside the support the density is zero and the cdf is zero or one',
         'At a point below the support of a univariate distribution the density and the cdf are zero and the complementary cdf is one; at a point above it the density is zero and the cdf is one. The cdf of a continuous distribution is also zero at the lower end of its range and one at the upper end. '
         'Counts above the number of trials have probability zero, and the normal cdf is zero at minus infinity and one at infinity.',
         'every real parameter in the documented range and every real point strictly outside the support; counts and degrees of freedom: the small values listed in the evidence', TC,
         UV, [('Distribution::cdf, ccdf, pdf, pmf', 'src/univariate, src/normal/univariate.rs')], NOTE)
    prop('C22', 'Every way of building a distribution gives the same distribution',
         'For valid parameters the checked constructor, the unchecked one, conversion from a parameter record, conversion from the distribution\'s own parameters and a clone give distributions with the same cdf, density or mass, moments, median, modes and entropy. '
         'Defaults, standard forms and named constructors are the distributions of the parameters they stand for, and parameter records report the values they were given.',
         'every real parameter in the documented range and every point of the support; integer parameters: 1 to 10^9 where the functional is closed in them, small listed values otherwise',
         'Several types cache derived values or build themselves by a separate path; tests build each distribution one way, so a path that caches the wrong value is never compared with another.',
         UV + ['src/mixture.rs'], [('new, new_unchecked, From<Params>, params(), Clone, Default, named constructors', 'src/univariate, src/normal, src/multivariate, src/params/mod.rs')], NOTE)
    prop('C23', 'A user-defined distribution gets consistent derived methods from the traits',
         'A type that implements only the required methods of the traits, with any values, gets the others derived from them: ccdf as one minus cdf, each logarithmic form as the logarithm of the plain one and back, cquantile(p) and quantile(1 - p) from each other, the quartiles, median, range and fences from the quantile, the standard deviation and variance from each other, kurtosis and excess kurtosis three apart, likelihood and log-likelihood, distance and squared distance. '
         'For vectors, variance is the diagonal of the covariance and correlation entry (i, j) the covariance over the root of the product of the variances. '
         'sample_n and sample_iter give one successive sample per value, and convolve_many adds two or more further variables one by one and fails exactly when one of the sums does.',
         'arbitrary values of the required methods, every point and probability; up to 5 repeated samples, vectors of 1 to 5 coordinates, sums of 2 to 5 further variables (more in the thorough tier)',
         'The provided methods are inherited by every distribution and overridden by many, so a test of one distribution rarely runs them, and never with values that tell the alternatives apart.',
         ['src/lib.rs', 'src/statistics.rs', 'src/fitting.rs', 'src/distance.rs'], [('Distribution, Convolution, ContinuousDistribution, DiscreteDistribution, Multivariate defaults', 'src/lib.rs'), ('UvMoments, MvMoments, Quantiles defaults', 'src/statistics.rs'), ('Likelihood defaults', 'src/fitting.rs'), ('Mahalanobis defaults', 'src/distance.rs')], NOTE)
    prop('C24', 'Parameters written and read back through serde are the same parameters',
         'With the serde feature on, writing any parameter value and reading it back gives the same value bit for bit, in a self-describing format with the fields in either order and in a positional one. '
         'Records are written under their own field names with each field holding its own value, and are refused when a field is missing; arrays of fixed length are written element by element in order and refused when too short or too long. '
         'This covers every parameter newtype and parameter record, concentrations, probability vectors, probabilities and mixtures.',
         'every f64 bit pattern and every 64-bit integer; arrays of 0 to 6 elements (10 in the thorough tier), lengths one off and doubled; normal parameters of 2 and 3 dimensions; mixtures of 1 to 3 components (5)',
         'No test turns the feature on; the array visitor and the generated field code run for a few fixed values at most, and a swapped or skipped field needs distinct values in both to show.',
         ['src/utils.rs', 'src/params', 'src/probability.rs', 'src/mixture.rs', 'src/univariate', 'src/multivariate', 'src/normal'], [('serde_arrays', 'src/utils.rs'), ('params!, param!', 'src/params/mod.rs'), ('Serialize, Deserialize derives', 'src/probability.rs, src/mixture.rs, src/normal/mod.rs')],
         'Two small data formats written in the harness stand for real ones; serde and its derive are the real crates. Range checks while reading are not claimed.')
