//! Stands in for malvolio with the feature pub_fields: the HTML nodes and their fields.
pub mod prelude {
    use std::borrow::Cow;
    use std::collections::HashMap;
    type Str = Cow<'static, str>;
    type Attrs = HashMap<Str, Str>;
    macro_rules! tags {
        ($($T:ident { $($f:ident : $t:ty),* })*) => {
            $(
                #[derive(Debug, Clone, Default)]
                pub struct $T { $(pub $f: $t),* }
                impl $T { pub fn into_pub_fields(self) -> $T { self } }
                impl From<$T> for BodyNode { fn from(x: $T) -> BodyNode { BodyNode::$T(x) } }
            )*
            #[derive(Debug, Clone)]
            pub enum BodyNode { $($T($T)),* }
        };
    }
    #[derive(Debug, Clone, Default)]
    pub struct SelectOption { pub text: Str, pub attrs: Attrs }
    tags! {
        H1 { text: Str, attrs: Attrs }
        H2 { text: Str, attrs: Attrs }
        H3 { text: Str, attrs: Attrs }
        H4 { text: Str, attrs: Attrs }
        H5 { text: Str, attrs: Attrs }
        H6 { text: Str, attrs: Attrs }
        P { attrs: Attrs, text: Str, children: Vec<BodyNode> }
        Br {}
        Text { text: Str }
        Form { children: Vec<BodyNode>, attrs: Attrs }
        Div { children: Vec<BodyNode>, attrs: Attrs }
        A { text: Str, attrs: Attrs }
        Input { attrs: Attrs }
        Select { children: Vec<SelectOption>, attrs: Attrs }
        NoScript { text: Str }
        Img { attrs: Attrs }
        Label { text: Str, attrs: Attrs }
    }
    // what the chat example builds its view with
    pub struct Attr(pub &'static str, pub Str);
    impl From<Attr> for (Str, Str) {
        fn from(a: Attr) -> (Str, Str) {
            (Cow::Borrowed(a.0), a.1)
        }
    }
    pub enum Type {
        Text,
        Submit,
    }
    impl From<Type> for Attr {
        fn from(t: Type) -> Attr {
            Attr("type", Cow::Borrowed(match t { Type::Text => "text", Type::Submit => "submit" }))
        }
    }
    macro_rules! attr {
        ($($T:ident $n:literal)*) => { $(
            pub struct $T;
            impl $T {
                #[allow(clippy::new_ret_no_self)]
                pub fn new(v: impl Into<Str>) -> Attr { Attr($n, v.into()) }
            }
        )* };
    }
    attr! { Placeholder "placeholder" Value "value" Name "name" }
    impl Div {
        pub fn new() -> Div { Div::default() }
    }
    impl Input {
        pub fn new() -> Input { Input::default() }
        pub fn attribute(mut self, a: impl Into<Attr>) -> Input {
            let a = a.into();
            self.attrs.insert(Cow::Borrowed(a.0), a.1);
            self
        }
    }
    impl P {
        pub fn new(t: impl Into<Str>) -> P { P { text: t.into(), ..P::default() } }
    }
    impl H3 {
        pub fn new(t: impl Into<Str>) -> H3 { H3 { text: t.into(), ..H3::default() } }
    }
    // what the list example builds its pages with: the texts on the page, in order
    #[derive(Clone, Debug, Default)]
    pub struct Page(pub Vec<String>);
    impl Page {
        pub fn head(self, o: Page) -> Page { self.child(o) }
        pub fn body(self, o: Page) -> Page { self.child(o) }
        pub fn child(mut self, o: Page) -> Page { self.0.extend(o.0); self }
        pub fn children(self, o: impl IntoIterator<Item = Page>) -> Page { o.into_iter().fold(self, |a, b| a.child(b)) }
        pub fn map(self, f: impl FnOnce(Page) -> Page) -> Page { f(self) }
        pub fn text(mut self, t: impl ToString) -> Page { self.0.push(t.to_string()); self }
        pub fn attribute(self, _: impl Into<Attr>) -> Page { self }
    }
    impl std::fmt::Display for Page {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            for t in &self.0 {
                write!(f, "[{}]", t)?;
            }
            Ok(())
        }
    }
    pub enum Method {
        Post,
    }
    impl From<Method> for Attr {
        fn from(_: Method) -> Attr { Attr("method", Cow::Borrowed("post")) }
    }
    pub fn html() -> Page { Page::default() }
    pub fn head() -> Page { Page::default() }
    pub fn body() -> Page { Page::default() }
    pub fn form() -> Page { Page::default() }
    pub fn input() -> Page { Page::default() }
    pub fn p() -> Page { Page::default() }
    pub fn h1(t: impl ToString) -> Page { Page::default().text(t) }
    pub fn title(t: impl ToString) -> Page { Page::default().text(t) }
}
