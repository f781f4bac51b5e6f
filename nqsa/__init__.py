"""noqx static analysis: deciders for the properties in /verif/properties.jsonl."""
