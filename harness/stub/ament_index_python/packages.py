import os

REPO = os.environ.get('VP_REPO', '/repo')


class PackageNotFoundError(KeyError):
    pass


def get_package_prefix(name):
    return os.path.join(REPO, name)


def get_package_share_directory(name):
    path = os.path.join(REPO, name, 'share', name)
    if not os.path.isdir(path):
        raise PackageNotFoundError(name)
    return path
