pub use validators;
