//! Offline stand-in for `arma3-wiki`: a fixed command database.
#![allow(dead_code)]
use std::collections::HashMap;

use commands::Commands;
use model::{Arg, Call, Command, EventHandlerNamespace, ParsedEventHandler, Syntax, Value, Version};

pub mod commands;
pub mod model;

/// name, call kinds (n, u, b), arma 3 version (major, minor)
const COMMANDS: &[(&str, &str, Option<(u8, u8)>)] = &[
    // nular
    ("player", "n", Some((0, 50))),
    ("time", "n", Some((0, 50))),
    ("allUnits", "n", Some((0, 50))),
    ("pi", "n", Some((0, 50))),
    ("nil", "nu", Some((0, 50))),
    ("objNull", "n", Some((0, 50))),
    ("grpNull", "n", Some((0, 50))),
    ("configNull", "n", Some((0, 50))),
    ("netObjNull", "n", Some((0, 50))),
    ("missionNamespace", "n", Some((0, 50))),
    ("true", "n", Some((0, 50))),
    ("false", "n", Some((0, 50))),
    // unary
    ("count", "ub", Some((0, 50))),
    ("str", "u", Some((0, 50))),
    ("sqrt", "u", Some((0, 50))),
    ("toLower", "u", Some((0, 50))),
    ("toUpper", "u", Some((0, 50))),
    ("toLowerANSI", "u", Some((2, 0))),
    ("toUpperANSI", "u", Some((2, 0))),
    ("hint", "u", Some((0, 50))),
    ("systemChat", "u", Some((0, 50))),
    ("private", "u", Some((0, 50))),
    ("isNil", "u", Some((0, 50))),
    ("if", "u", Some((0, 50))),
    ("while", "u", Some((0, 50))),
    ("call", "ub", Some((0, 50))),
    ("spawn", "b", Some((0, 50))),
    ("random", "ub", Some((0, 50))),
    ("positionCameraToWorld", "u", Some((0, 50))),
    ("params", "ub", Some((1, 48))),
    ("param", "ub", Some((1, 48))),
    ("not", "u", Some((0, 50))),
    ("abs", "u", Some((0, 50))),
    ("floor", "u", Some((0, 50))),
    ("parseNumber", "u", Some((0, 50))),
    ("typeName", "u", Some((0, 50))),
    ("vehicle", "u", Some((0, 50))),
    ("createHashMapFromArray", "u", Some((2, 2))),
    ("getUnitLoadout", "u", Some((1, 58))),
    // binary
    ("then", "b", Some((0, 50))),
    ("do", "b", Some((0, 50))),
    ("exitWith", "b", Some((0, 50))),
    ("select", "b", Some((0, 50))),
    ("set", "b", Some((0, 50))),
    ("pushBack", "b", Some((1, 26))),
    ("isEqualTo", "b", Some((1, 16))),
    ("isEqualType", "b", Some((1, 52))),
    ("isNotEqualTo", "b", Some((2, 0))),
    ("find", "b", Some((0, 50))),
    ("in", "b", Some((0, 50))),
    ("getVariable", "b", Some((0, 50))),
    ("setVariable", "b", Some((0, 50))),
    ("getOrDefault", "b", Some((2, 2))),
    ("vectorAdd", "b", Some((1, 20))),
    ("vectorDiff", "b", Some((1, 20))),
    ("vectorCrossProduct", "b", Some((1, 20))),
    ("vectorDotProduct", "b", Some((1, 20))),
    ("forEach", "b", Some((0, 50))),
    ("apply", "b", Some((1, 56))),
    ("setPos", "b", Some((0, 50))),
    ("setMarkerPosLocal", "b", Some((0, 50))),
    ("setMarkerTextLocal", "b", Some((0, 50))),
    ("setMarkerPos", "b", Some((0, 50))),
    ("setMarkerText", "b", Some((0, 50))),
    ("addEventHandler", "b", Some((0, 50))),
    ("max", "b", Some((0, 50))),
    ("min", "b", Some((0, 50))),
    ("mod", "b", Some((0, 50))),
    ("atan2", "b", Some((0, 50))),
    ("else", "b", Some((0, 50))),
    ("and", "b", Some((0, 50))),
    ("or", "b", Some((0, 50))),
    ("format", "u", Some((0, 50))),
    ("trim", "ub", Some((2, 2))),
];

pub struct Wiki {
    version: Version,
    commands: Commands,
    event_handlers: HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>>,
    custom: Vec<String>,
    updated: bool,
}

impl Wiki {
    #[must_use]
    pub const fn version(&self) -> &Version {
        &self.version
    }

    #[must_use]
    pub const fn commands(&self) -> &Commands {
        &self.commands
    }

    #[must_use]
    pub const fn event_handlers(&self) -> &HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>> {
        &self.event_handlers
    }

    #[must_use]
    pub const fn updated(&self) -> bool {
        self.updated
    }

    #[must_use]
    pub fn load(_force_pull: bool) -> Self {
        Self::load_dist()
    }

    pub fn add_custom_command(&mut self, command: Command) {
        let name = command.name().to_lowercase();
        self.custom.push(name.clone());
        self.commands.raw_mut().insert(name, command);
    }

    /// # Errors
    /// Returns an error if the command could not be parsed.
    pub fn add_custom_command_parse(&mut self, command: &str) -> Result<Command, String> {
        let command: Command = serde_yaml::from_str(command).map_err(|e| format!("{e}"))?;
        self.add_custom_command(command.clone());
        Ok(command)
    }

    pub fn remove_command(&mut self, name: &str) -> bool {
        let name = name.to_lowercase();
        self.commands.raw_mut().remove(&name);
        if self.custom.contains(&name) {
            self.custom.retain(|c| c != &name);
            true
        } else {
            false
        }
    }

    #[must_use]
    pub fn is_custom_command(&self, name: &str) -> bool {
        self.custom.contains(&name.to_lowercase())
    }

    #[must_use]
    pub fn event_handler(&self, id: &str) -> Vec<(EventHandlerNamespace, &ParsedEventHandler)> {
        let mut handlers = Vec::new();
        for (ns, hs) in &self.event_handlers {
            if let Some(handler) = hs.iter().find(|h| h.id() == id) {
                handlers.push((*ns, handler));
            }
        }
        handlers
    }

    /// # Errors
    /// never
    pub fn load_git(_force_pull: bool) -> Result<Self, String> {
        Ok(Self::load_dist())
    }

    #[must_use]
    pub fn load_dist() -> Self {
        let mut commands = HashMap::new();
        for (name, kinds, since) in COMMANDS {
            let mut c = Command::default();
            c.set_name((*name).to_string());
            if let Some((major, minor)) = since {
                let _ = c
                    .since_mut()
                    .set_version("arma3", Version::new(*major, *minor));
            }
            let item = |s: &str| Arg::Item(s.to_string());
            for k in kinds.chars() {
                let call = match k {
                    'n' => Call::Nular,
                    'u' => Call::Unary(item("a")),
                    _ => Call::Binary(item("a"), item("b")),
                };
                c.add_syntax(Syntax::new(call, (Value::Anything, None), Vec::new(), None, None));
            }
            commands.insert(name.to_lowercase(), c);
        }
        Self {
            version: Version::new(2, 18),
            commands: Commands::new(commands),
            event_handlers: HashMap::new(),
            updated: false,
            custom: Vec::new(),
        }
    }
}
