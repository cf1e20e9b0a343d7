//! Stand-in for air's `workspace` crate: the path resolver.
pub mod resolve {
    use std::path::{Path, PathBuf};
    #[derive(Debug)]
    pub struct PathResolverItem<T> {
        path: PathBuf,
        value: T,
    }
    impl<T> PathResolverItem<T> {
        pub fn path(&self) -> &Path {
            &self.path
        }
        pub fn value(&self) -> &T {
            &self.value
        }
    }
    /// Maps directories to values; a path resolves to the value of its closest ancestor.
    #[derive(Debug)]
    pub struct PathResolver<T> {
        fallback: T,
        items: Vec<PathResolverItem<T>>,
    }
    impl<T> PathResolver<T> {
        pub fn new(fallback: T) -> Self {
            Self { fallback, items: vec![] }
        }
        pub fn add<P: AsRef<Path>>(&mut self, path: P, value: T) -> Option<T> {
            let path = path.as_ref();
            match self.items.binary_search_by(|i| i.path.as_path().cmp(path)) {
                Ok(i) => Some(std::mem::replace(&mut self.items[i].value, value)),
                Err(i) => {
                    self.items.insert(i, PathResolverItem { path: path.to_path_buf(), value });
                    None
                }
            }
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn items(&self) -> &[PathResolverItem<T>] {
            &self.items
        }
        pub fn fallback(&self) -> &T {
            &self.fallback
        }
        pub fn resolve<P: AsRef<Path>>(&self, path: P) -> Option<&PathResolverItem<T>> {
            let path = path.as_ref();
            self.items
                .iter()
                .filter(|i| path.starts_with(&i.path))
                .max_by_key(|i| i.path.components().count())
        }
        pub fn resolve_or_fallback<P: AsRef<Path>>(&self, path: P) -> &T {
            self.resolve(path).map_or(&self.fallback, |i| &i.value)
        }
    }
}
