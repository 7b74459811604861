---- MODULE Compose1 ----
EXTENDS Compose
AllEnts == DOMAIN Entities
====
