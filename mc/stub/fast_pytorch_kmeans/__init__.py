"""Stand-in for the fast_pytorch_kmeans package, which is not installed here.

The clustering found by `fit` is an *environment answer*: a check sets KMeans.answer (a function
data -> labels) to enumerate every clustering; by default points are assigned to the nearest of
the first n_clusters distinct rows.  `max_sim` and `predict` do what the real package documents:
index of the closest centroid (mode="euclidean").
"""
import torch


class KMeans:
    answer = None  # callable(data, n_clusters) -> LongTensor labels, or None
    log = []

    def __init__(self, n_clusters, max_iter=100, tol=0.0001, verbose=0, mode="euclidean", init_method="random",
                 minibatch=None):
        self.n_clusters = n_clusters
        self.verbose = verbose
        self.mode = mode
        self.init_method = init_method
        self.centroids = None

    def _cluster(self, X):
        if KMeans.answer is not None:
            labels = KMeans.answer(X, self.n_clusters)
        else:
            uniq = torch.unique(X, dim=0)
            cents = uniq[torch.linspace(0, len(uniq) - 1, self.n_clusters).long()]
            labels = self.max_sim(X, cents)[1]
        return labels.long()

    def fit_predict(self, X, centroids=None):
        X = X.float()
        labels = self._cluster(X)
        cents = torch.zeros(self.n_clusters, X.shape[1])
        for k in range(self.n_clusters):
            m = labels == k
            # an empty cluster keeps a far away centroid, like a k-means centre that never attracts a point
            cents[k] = X[m].mean(0) if m.any() else torch.full((X.shape[1],), 1e4 + k)
        self.centroids = cents
        return labels

    def fit(self, X, centroids=None):
        self.fit_predict(X, centroids)

    def predict(self, X):
        if KMeans.answer is not None:
            return self._cluster(X)
        return self.max_sim(a=X.float(), b=self.centroids)[1]

    def max_sim(self, a, b):
        if KMeans.answer is not None and getattr(KMeans, "answer_sim", None) is not None:
            idx = KMeans.answer_sim(a, b)
            return torch.zeros(idx.shape), idx
        sim = 2 * a @ b.transpose(-2, -1) - (a**2).sum(dim=1)[..., :, None] - (b**2).sum(dim=1)[..., None, :]
        return sim.max(dim=-1)
