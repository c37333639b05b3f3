//! The widgets the application uses

use implicit_clone::unsync::IArray;
use implicit_clone::ImplicitClone;
use yew::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intent {
    Primary,
    Success,
    Warning,
    Danger,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Icon {
    FolderClose,
    FolderOpen,
    Document,
    Tick,
    Cross,
    Download,
    Upload,
    Error,
}

macro_rules! plain {
    ($($n:ident $p:ident { $($f:ident : $t:ty),* })*) => { $(
        #[derive(Properties, PartialEq)]
        pub struct $p {
            $( #[prop_or_default] pub $f: $t, )*
            #[prop_or_default] pub children: Children,
        }
        #[function_component]
        pub fn $n(props: &$p) -> Html {
            $( let _ = &props.$f; )*
            html! { <div>{props.children.clone()}</div> }
        }
    )* };
}
plain! {
    H1 H1Props { class: Option<Classes> }
    H2 H2Props { class: Option<Classes> }
    H3 H3Props { class: Option<Classes> }
    H4 H4Props { class: Option<Classes> }
    H5 H5Props { class: Option<Classes> }
    H6 H6Props { class: Option<Classes> }
    ButtonGroup ButtonGroupProps { vertical: bool, fill: bool, large: bool, minimal: bool }
    Text TextProps { ellipsize: bool }
}

#[derive(Properties, PartialEq)]
pub struct CalloutProps {
    #[prop_or_default]
    pub title: String,
    #[prop_or_default]
    pub intent: Option<Intent>,
    #[prop_or_default]
    pub icon: Option<Icon>,
    #[prop_or_default]
    pub children: Children,
}
#[function_component]
pub fn Callout(props: &CalloutProps) -> Html {
    html! { <div>{Html::Item(yew::Item::Notice(format!("{:?}", props.intent)))}{&props.title}{props.children.clone()}</div> }
}

#[derive(Properties, PartialEq)]
pub struct ButtonProps {
    #[prop_or_default]
    pub onclick: Callback<MouseEvent>,
    #[prop_or_default]
    pub disabled: bool,
    #[prop_or_default]
    pub icon: Option<Icon>,
    #[prop_or_default]
    pub intent: Option<Intent>,
    #[prop_or_default]
    pub children: Children,
}
#[function_component]
pub fn Button(props: &ButtonProps) -> Html {
    html! { <button disabled={props.disabled} onclick={props.onclick.clone()}>{props.children.clone()}</button> }
}

#[derive(Properties, PartialEq)]
pub struct SwitchProps {
    #[prop_or_default]
    pub onclick: Callback<MouseEvent>,
    #[prop_or_default]
    pub disabled: bool,
    #[prop_or_default]
    pub checked: bool,
    #[prop_or_default]
    pub align_right: bool,
    #[prop_or_default]
    pub label: Html,
}
#[function_component]
pub fn Switch(props: &SwitchProps) -> Html {
    html! { <button disabled={props.disabled} onclick={props.onclick.clone()}>{props.label.clone()}</button> }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct RatioOrPercentage(pub f32);
impl yew::IntoPropValue<RatioOrPercentage> for f32 {
    fn into_prop_value(self) -> RatioOrPercentage {
        RatioOrPercentage(self)
    }
}
impl yew::IntoPropValue<RatioOrPercentage> for u32 {
    fn into_prop_value(self) -> RatioOrPercentage {
        RatioOrPercentage(self as f32 / 100.0)
    }
}
#[derive(Properties, PartialEq)]
pub struct ProgressBarProps {
    #[prop_or_default]
    pub value: RatioOrPercentage,
    #[prop_or_default]
    pub animate: bool,
    #[prop_or_default]
    pub stripes: bool,
    #[prop_or_default]
    pub vertical: bool,
    #[prop_or_default]
    pub large: bool,
    #[prop_or_default]
    pub intent: Option<Intent>,
}
#[function_component]
pub fn ProgressBar(props: &ProgressBarProps) -> Html {
    html! { <div>{Html::Item(yew::Item::Progress(props.value.0))}</div> }
}

#[derive(Clone)]
pub struct Tab<T> {
    pub disabled: bool,
    pub id: T,
    pub title: Html,
    pub panel: Html,
    pub panel_class: Classes,
    pub title_class: Classes,
}
impl<T: Clone> ImplicitClone for Tab<T> {}
impl<T> PartialEq for Tab<T> {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Properties, PartialEq)]
pub struct TabsProps<T: Clone + PartialEq + 'static> {
    #[prop_or_default]
    pub id: String,
    #[prop_or_default]
    pub animate: bool,
    #[prop_or_default]
    pub vertical: bool,
    pub selected_tab_id: T,
    #[prop_or_default]
    pub onchange: Callback<T>,
    pub tabs: IArray<Tab<T>>,
}
/// Like the real widget, every panel exists and keeps its state; only the selected one is shown
#[function_component]
pub fn Tabs<T: Clone + PartialEq + 'static>(props: &TabsProps<T>) -> Html {
    html! { <div>
        {for props.tabs.iter().map(|t| {
            let (c, id) = (props.onchange.clone(), t.id.clone());
            html! { <button onclick={move |_: MouseEvent| c.emit(id.clone())}>{t.title.clone()}</button> }
        })}
        {for props.tabs.iter().map(|t| html! { <div>{Html::Item(yew::Item::Panel)}{t.panel.clone()}</div> })}
    </div> }
}
