SPECIFICATION Spec
INVARIANTS FollowsLaw LikeNew NeverInvalid DeadZone Emitted
